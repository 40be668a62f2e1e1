"""Stand-in for OpenFst's Python module: reads a textual transducer.

start N / final S W / arc S NEXT IL OL W / states N
"""


class Weight:
    def __init__(self, v):
        self.v = float(v)

    def __float__(self):
        return self.v

    def to_string(self):
        return repr(self.v)

    __str__ = to_string


class Arc:
    def __init__(self, ilabel, olabel, weight, nextstate):
        self.ilabel, self.olabel, self.weight, self.nextstate = ilabel, olabel, weight, nextstate


class Fst:
    def __init__(self):
        self._start, self._n, self._final, self._arcs = -1, 0, {}, {}

    @staticmethod
    def read(path):
        f = Fst()
        with open(path) as fd:
            for line in fd:
                t = line.split()
                if t[0] == 'start':
                    f._start = int(t[1])
                elif t[0] == 'states':
                    f._n = int(t[1])
                elif t[0] == 'final':
                    f._final[int(t[1])] = float(t[2])
                elif t[0] == 'arc':
                    f._arcs.setdefault(int(t[1]), []).append(Arc(int(t[3]), int(t[4]), Weight(t[5]), int(t[2])))
        return f

    def start(self):
        return self._start

    def states(self):
        return iter(range(self._n))

    def num_states(self):
        return self._n

    def num_arcs(self, s):
        return len(self._arcs.get(s, []))

    def final(self, s):
        return Weight(self._final.get(s, float('inf')))

    def arcs(self, s):
        return iter(self._arcs.get(s, []))


class VectorFst(Fst):
    pass
