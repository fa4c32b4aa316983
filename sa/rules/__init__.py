from . import durability, pipeline, destructive, effects, resume, integrity, errors, backends, restore, walks, indexes, files, snapshots, liveness, listing, stored  # noqa: F401
