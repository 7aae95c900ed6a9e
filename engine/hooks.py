"""Per-job set-up functions for the executor."""
