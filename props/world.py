"""A network loaded with trips, recomputed from the hyperpaths: the oracle of the optimiser's harnesses."""
import props.K01 as K01
from props.lib import *


def nest(flat_table, X, routes, scale):
    """[route][direction][stop] from (route, direction, id), divided by scale[route]"""
    mode = {r.id: r.mode.name for r in routes}
    out = {r.id: {"I": {}, "R": {}} for r in routes}
    for (r, d, s), x in flat_table.items():
        out[r][d][X.stop[mode[r], s]] = x / scale[r] if scale is not None else x
    return out


class World:
    """f0: frequencies on which the passengers chose their paths; f: frequencies of the lines"""

    def __init__(self, g, routes, pax, od, f0, f):
        self.g, self.routes, self.pax, self.f = g, routes, pax, f
        self.X = X = Ext(ExtendedGraph(g, routes, pax.pt, f0))
        trips = defaultdict(lambda: defaultdict(float))
        for (a, b), v in od.items():
            if v != 0:
                trips[a][b] = v
        self.hyper, self.labels, self.suc, _, self.V = Hyperpath(X.eg, pax).get_all_hyperpaths(trips)
        self.share = Assignment.get_assignment(self.hyper, self.labels, g.get_parameters()[3], pax.va, pax.pa, pax.pv)
        self.trips = []
        self.z, self.v, self.load = defaultdict(float), defaultdict(float), defaultdict(float)
        for o in self.hyper:
            for d in self.hyper[o]:
                stops = [s for s in self.hyper[o][d] if self.hyper[o][d][s]]
                t = self.V[o][d]
                self.trips.append((o, d, t, stops))
                fl = flows(self.suc[o][d], {s: t * self.share[o][d][s] / 100 for s in stops}, d, f)
                for whole, part in zip((self.z, self.v, self.load), per_line(fl)):
                    for k in part:
                        whole[k] += part[k]
        self.total = sum(od.values())
        self.dist = g.get_edges_distance()
        self.on = {r.id: bool(f[r.id] > 0) for r in routes}
        self.k = {r.id: max([0] + [x for (i, _, _), x in self.load.items() if i == r.id]) / f[r.id] if self.on[r.id] else 0
                  for r in routes}
        self.tc = {r.id: self.cycle(r) for r in routes}

    def cycle(self, r):
        run = sum(self.dist[a][b] for s in (r.nodes_sequence_i, r.nodes_sequence_r) for a, b in zip(s, s[1:])) / r.mode.v
        if not self.on[r.id]:
            return run
        stop = 0
        for key in dict.fromkeys(list(self.z) + list(self.v)):
            if key[0] == r.id:
                a, b = self.z.get(key, 0), self.v.get(key, 0)
                stop = stop + (a + b if r.mode.bya == 0 else (a if a >= b else b))
        return run + r.mode.t / 3600 * stop / self.f[r.id]

    def operators(self):
        return sum((r.mode.co + r.mode.c1 * self.k[r.id]) * self.f[r.id] * self.tc[r.id] for r in self.routes if self.on[r.id])

    def modes(self):
        out = []
        for r in self.routes:
            if not any(r.mode is m for m in out):
                out.append(r.mode)
        return out

    def infrastructure(self):
        c = 0
        for m in self.modes():
            used = {frozenset((a, b)): self.dist[a][b] for r in self.routes if r.mode is m and self.on[r.id]
                    for s in (r.nodes_sequence_i, r.nodes_sequence_r) for a, b in zip(s, s[1:])}
            c = c + m.c2 * m.d * sum(used.values())
        return c

    def resources(self):
        one = {r.id: self.f[r.id] if self.on[r.id] else 1 for r in self.routes}
        z, v = nest(self.z, self.X, self.routes, one), nest(self.v, self.X, self.routes, one)
        return K01.oracle(self.trips, self.suc, self.share, self.f, z, v, self.pax)

    def users(self):
        ta, te, tv, n = self.resources()
        p = self.pax
        return ta * p.spa + te * p.spw + tv * p.spv + n * p.spt / 60 * p.spv

    def limits(self):
        out = [self.k[r.id] - r.mode.kmax for r in self.routes]
        for e in self.g.get_edges():
            for m in self.modes():
                F = sum(self.f[r.id] for r in self.routes if r.mode is m for s in (r.nodes_sequence_i, r.nodes_sequence_r)
                        for a, b in zip(s, s[1:]) if (a, b) == (e.node1.id, e.node2.id))
                out.append((F - m.fmax) / m.d)
        return out


def scene(ctx, topo, pairs, bya=(1, 0), what="", d=1):
    """(city, ids, routes, passengers, demand, trips); what: names of arbitrary numbers"""
    sym = set(what.split())

    def num(name, default, lo, hi, lo_open=False):
        return ctx.real(name, lo, hi, lo_open) if name in sym else default

    ms = [mk_mode("bus", bya=bya[0], co=num("co0", 8.5, 0, 100), c1=num("c10", 0.25, 0, 10), c2=num("c20", 3.5, 0, 100),
                  v=num("v0", 20, 1, 100), t=num("t0", 4, 0, 60), fmax=num("fmax0", 30, 0, 500), kmax=num("kmax0", 160, 0, 1000),
                  theta=num("theta0", 0.5, 0, 1), tat=num("tat0", 1, 0, 30), fini=28, d=1),
          mk_mode("metro", bya=bya[1], co=num("co1", 20, 0, 100), c1=num("c11", 0.5, 0, 10), c2=num("c21", 40, 0, 100),
                  v=num("v1", 40, 1, 100), t=num("t1", 2, 0, 60), fmax=num("fmax1", 40, 0, 500), kmax=num("kmax1", 800, 0, 3000),
                  theta=num("theta1", 0.25, 0, 1), tat=num("tat1", 2, 0, 30), fini=12, d=d)]
    pax = Passenger(num("va", 4, 0, 10, True), 2, 4, 6, 16, num("spv", 2.5, 0, 50), num("spw", 5, 0, 50), num("spa", 7, 0, 50),
                    num("spt", 16, 0, 60))
    if topo in TOPOLOGIES:
        g, ids, routes, o, t = topology(topo, ms)
    else:       # zones:families, or zones:families:families of the second mode
        n, *names = topo.split(":")
        g = city(int(n))
        ids = {"c": g.get_cbd().id}
        for k, z in enumerate(g.get_zones()):
            ids["p%d" % k], ids["s%d" % k] = z.periphery.id, z.subcenter.id
        routes = []
        for m, w in zip(ms, names):
            for r in families(g, m, w.split()):
                r.id = "%s_%s" % (r.id, m.name)
                routes.append(r)
    dem = Demand(g)
    od = {}
    for n, p in enumerate(pairs):
        a, b = ids[p[0]], ids[p[1]]
        od[a, b] = v = ctx.real("V%d" % n, 0, 5000, True) if "V" in sym or "V%d" % n in sym else p[2]
        dem.change_vij(a, b, v)
    return g, ids, routes, pax, dem, od
