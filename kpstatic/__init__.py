"""Repository-specific static analyses for kikuchipy (stdlib only)."""
