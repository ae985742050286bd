"""Builds the extractor and warms the fact cache (both are rebuilt on demand by the checks)."""
import facts
for c in ("base",):
    db = facts.load(c)
    print(c, db.stats)
