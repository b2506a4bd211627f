"""Property-based checking machinery for dattri."""
