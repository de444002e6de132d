"""Gridworlds: a model that is independent of `tulip`."""


class World:
    def __init__(self, rows, cols, walls=(), init=(), goals=()):
        self.rows, self.cols = rows, cols
        self.walls = set(walls)
        self.init = list(init)
        self.goals = list(goals)

    @property
    def cells(self):
        return [(i, j) for i in range(self.rows) for j in range(self.cols)]

    @property
    def free(self):
        return [c for c in self.cells if c not in self.walls]

    def near(self, c):
        """Free 4-neighbors."""
        i, j = c
        return [d for d in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1))
                if 0 <= d[0] < self.rows and 0 <= d[1] < self.cols
                and d not in self.walls]

    def reach(self, c):
        if c in self.walls:
            return set()
        seen = {c}
        todo = [c]
        while todo:
            for d in self.near(todo.pop()):
                if d not in seen:
                    seen.add(d)
                    todo.append(d)
        return seen

    def key(self):
        return (self.rows, self.cols, sorted(self.walls),
                self.init, self.goals)


def rand_world(rng, most=5, overlap=False, rows=None, cols=None):
    rows = rows or rng.randint(1, most)
    cols = cols or rng.randint(1, most)
    w = World(rows, cols)
    density = rng.choice([0, 0.2, 0.4, 0.6])
    w.walls = {c for c in w.cells if rng.random() < density}
    if not w.free:
        w.walls.discard(rng.choice(w.cells))
    free = w.free
    rng.shuffle(free)
    k = rng.randint(0, min(3, len(free)))
    w.init = free[:k]
    rest = free if overlap else free[k:]
    rng.shuffle(rest)
    w.goals = rest[:rng.randint(0, min(3, len(rest)))]
    return w


def build(w, prefix='Y'):
    """The `GridWorld` of `w`, made with its public methods."""
    from tulip import gridworld as gw
    g = gw.unoccupied((w.rows, w.cols), prefix)
    for c in w.walls:
        g.mark_occupied(c)
    g.init_list = list(w.init)
    g.goal_list = list(w.goals)
    return g


def content(g):
    """What `g` contains, in terms of its methods."""
    n, k = g.size()
    return (n, k, [(i, j) for i in range(n) for j in range(k)
                   if not g.is_empty((i, j))],
            [(int(i), int(j)) for i, j in g.init_list],
            [(int(i), int(j)) for i, j in g.goal_list])
