"""Static-analysis engine for SEYFERT (value numbering over gated ASTs, effect logs, rule library)."""
