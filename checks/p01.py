"""P01: the directory holds exactly what the publish history says."""
from edge import crowd, edges
from world import World


class Directory(World):
    watch = frozenset({'svc', 'list'})
    setup = (["login", 1, 0, 0, "A", 11, 3], ["login", 2, 0, 0, "A", 12, 2])

    def alphabet(self):
        acts = []
        for c in (1, 2):
            if c in self.m.conns:
                for sid in (1, 2):
                    acts += [["pub", c, sid, g, pv, t] for g, pv, t in
                             ((0, 0, 5), (1, 0, 5), (1, 1, 5), (1, 0, 7),
                              (2, 1, 9))]
                    acts.append(["unpub", c, sid])
                acts.append(["close", c])
            else:
                acts.append(["login", c, 0, 0, "A", 10 + c, 2])
        acts.append(["wait", 3.0])
        return acts


def run(check):
    check.explore("directory", Directory, 4 if check.thorough else 3)
    check.explore("edges", edges(Directory.watch, what="px"),
                  4 if check.thorough else 3)
    check.explore("crowd", crowd(Directory.watch), 4 if check.thorough else 2)
