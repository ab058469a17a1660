"""Property-based verification framework for py-matrix-algorithms."""
