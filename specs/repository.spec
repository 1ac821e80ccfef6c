package repository

// ---- C29: the repository container ----

func New() (r)
  ensures [C29] r != nil && fresh(r) && r.root == nil && r.snapshot == nil && r.timestamp == nil
  ensures [C29] nonnil(r.targets) && fresh(r.targets) && forall k string :: !(k in r.targets)

func (*repositoryType).Root(r) (m)
  ensures [C29] m == r.root
func (*repositoryType).Snapshot(r) (m)
  ensures [C29] m == r.snapshot
func (*repositoryType).Timestamp(r) (m)
  ensures [C29] m == r.timestamp
func (*repositoryType).Targets(r, name) (m)
  ensures [C29] name in r.targets ==> m == r.targets[name]
  ensures [C29] !(name in r.targets) ==> m == nil

func (*repositoryType).SetRoot(r, meta)
  modifies r.root
  ensures [C29] r.root == meta
func (*repositoryType).SetSnapshot(r, meta)
  modifies r.snapshot
  ensures [C29] r.snapshot == meta
func (*repositoryType).SetTimestamp(r, meta)
  modifies r.timestamp
  ensures [C29] r.timestamp == meta
func (*repositoryType).SetTargets(r, name, meta)
  requires nonnil(r.targets)
  modifies map(r.targets)
  ensures [C29] name in r.targets && r.targets[name] == meta
  ensures [C29] forall k string :: k != name ==> ((k in r.targets) <==> old(k in r.targets)) && r.targets[k] == old(r.targets[k])
