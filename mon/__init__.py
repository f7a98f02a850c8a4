"""Runtime monitors for dynetworkx: workloads, reference models, oracles."""
