"""nvsa: repository-specific static analyses for nevergrad (source only, nothing is executed)."""
