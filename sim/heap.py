"""Object addresses as a seeded choice."""
import random


def perturb(n):
    """Shuffle the addresses later objects get (call in the process under test)."""
    if not n:
        return None
    r = random.Random("heap/%d" % n)
    keep = []

    class O:
        pass
    for size in range(8):
        xs = []
        for _ in range(600):
            o = O()
            o.a = {} if size == 1 else [None] * size
            xs.append((o, {}, {1}, [], "s%d" % r.randrange(10 ** 9)))
        r.shuffle(xs)
        keep += xs[:150]
        for x in xs[150:]:
            del x
        del xs
    return keep
