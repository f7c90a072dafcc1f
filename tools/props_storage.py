S = "crates/storage/src/"
RM = "runtime monitoring: "
PROPS = [
 dict(id="S01", title="Stored content is found under its key until it is removed or pruned",
  statement="Whatever sequence of storing, looking up, listing, removing, reopening and pruning is performed, the store answers as a map from keys to values would: a stored value is returned unchanged under its key and no other, content already present is kept, removed or pruned content is gone, and listings show exactly what is stored. The reported number of items and bytes always equals what is stored. Everything is still there after closing and reopening.",
  over=["histories", "inputs"], q="sequences of operations with repeated keys, values of any size and any reopening points",
  why="Unit tests run fixed short sequences; they never repeat keys, reopen in the middle or compare every answer with a model.",
  files=[S+"versioned/id_indexed_v1/store.rs", S+"versioned/id_indexed_v1/sql.rs", S+"versioned/usage_stats.rs", S+"lib.rs"],
  mech=[("insert or ignore of known content", S+"versioned/id_indexed_v1/store.rs insert"), ("usage accounting", S+"versioned/usage_stats.rs")],
  observe=["answers of every operation", "rows of the database", "reported usage"],
  technique=RM+"random operation histories over the real database library, every answer and the raw rows compared with a map model",
  level_note="random histories up to a few hundred operations, small and large values, reopening at random points"),
 dict(id="S02", title="Pruning keeps the closest content and the capacity is respected",
  statement="When the stored bytes exceed the capacity, content is removed farthest first until it fits again, and the radius shrinks to the distance of the farthest content kept; content closer than the radius is never removed to make room. The store reports that it wants content exactly when the content is new and lies within the radius. With room left the radius is the largest possible, with no capacity at all it is zero, and reopening with the same or another capacity leads to a consistent state.",
  over=["histories", "configurations"], q="sequences of insertions around the capacity with any distances and sizes, and any capacity on reopening",
  why="Unit tests fill the store with equally sized content in one order and check a handful of radii.",
  files=[S+"versioned/id_indexed_v1/store.rs", S+"versioned/id_indexed_v1/config.rs", S+"versioned/id_indexed_v1/pruning_strategy.rs"],
  mech=[("farthest-first deletion", S+"versioned/id_indexed_v1/store.rs prune"), ("radius update", S+"versioned/id_indexed_v1/store.rs"), ("pruning frequency and batch size", S+"versioned/id_indexed_v1/pruning_strategy.rs")],
  observe=["radius, rows, usage and reported wishes after every operation"],
  technique=RM+"random histories near the capacity, the database rows compared with a distance-ordered model after every operation",
  level_note="random sizes, distances and capacities, including none; real content keys"),
 dict(id="S03", title="Interrupted or failing storage operations lose nothing and break nothing",
  statement="If the process stops between any two database statements, the store opens again with every value stored before intact, nothing half written, and figures that match the content. If a statement fails, the operation reports the failure or succeeds completely, and afterwards the running store still answers from what is really stored.",
  over=["crash_points", "fault_sequences", "histories"], q="a stop or failure at every statement of every operation in random histories",
  why="Unit tests never interrupt an operation or let the database fail.",
  files=[S+"versioned/id_indexed_v1/store.rs", S+"versioned/utils.rs", S+"versioned/store.rs", S+"utils.rs"],
  mech=[("deletion and accounting as separate statements", S+"versioned/id_indexed_v1/store.rs prune"), ("table creation and version record", S+"versioned/utils.rs")],
  observe=["a copy of the database before each statement, reopened", "answers after an injected failure"],
  technique=RM+"crash-point copies at every statement and injected statement failures, reopened stores compared with a model",
  level_note="every statement of random operations; stops are modelled between statements, not inside the database library"),
 dict(id="S04", title="Capacity is shared out as configured and old stores are recognised",
  statement="The capacity given for all networks is divided among them by fixed weights without exceeding the total, fixed shares are used as given, and networks without a share get none. A store whose recorded version differs from the expected one is refused or migrated, never read as if it matched, and the version is recorded once. Directory sizes count every file once.",
  over=["configurations", "histories"], q="all combinations of networks and capacities, all recorded versions and contents",
  why="Unit tests check a few fixed configurations.",
  files=[S+"config.rs", S+"versioned/utils.rs", S+"utils.rs", S+"test_utils.rs"],
  mech=[("weights", S+"config.rs"), ("version lookup", S+"versioned/utils.rs")],
  observe=["shares, recorded versions, sizes"],
  technique=RM+"generated configurations and databases against independent arithmetic",
  level_note="all combinations of networks with random and boundary capacities"),
 dict(id="S05", title="Stores sharing one database do not disturb each other",
  statement="Several stores of different networks working at the same time over one database each behave as if alone: no value, removal, figure or pruning of one shows up in another, no operation fails because of the others, and each one's figures match its own content afterwards.",
  over=["schedules", "histories"], q="parallel histories of several stores over one database",
  why="Unit tests use one store from one thread.",
  files=[S+"versioned/id_indexed_v1/store.rs", S+"utils.rs", S+"versioned/utils.rs"],
  mech=[("separate tables per network", S+"versioned/id_indexed_v1/sql.rs"), ("connection pool", S+"utils.rs")],
  observe=["answers and rows of each store"],
  technique=RM+"threads running random histories over a shared pool, each compared with its own model",
  level_note="up to four threads; schedules as the system gives them"),
]
