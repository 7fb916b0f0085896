"""One module per property; each exposes ``run(ctx) -> Result``."""
