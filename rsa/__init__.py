"""Static analysis of resync/resync: engine and rules (standard library only)."""
