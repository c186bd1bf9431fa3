"""Static-analysis engine used by the coax property checkers (see DESIGN.md)."""
