"""Entropy decoder: turns a byte string drawn by Hypothesis into structured
choices.  Exhausted input reads as zero, and zero is always the simplest
choice, so shrinking the bytes shrinks the case."""


class Src:
    def __init__(self, data):
        self.d = data
        self.i = 0

    def byte(self):
        i = self.i
        self.i = i + 1
        return self.d[i] if i < len(self.d) else 0

    def below(self, n):
        """Integer in [0, n)."""
        if n <= 1:
            return 0
        if n <= 256:
            return self.byte() * n >> 8 if n > 16 else self.byte() % n
        if n <= 65536:
            return (self.byte() << 8 | self.byte()) % n
        return int.from_bytes(bytes(self.byte() for _ in range((n.bit_length() + 15) // 8)), "big") % n

    def int(self, a, b):
        """Integer in [a, b]; a is the simplest."""
        return a + self.below(b - a + 1)

    def bits(self, k):
        r = 0
        for _ in range((k + 7) // 8):
            r = r << 8 | self.byte()
        return r & ((1 << k) - 1)

    def chance(self, num, den):
        """True with probability num/den (False is simplest)."""
        return self.below(den) >= den - num

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; first is simplest."""
        tot = sum(w for w, _ in pairs)
        x = self.below(tot)
        for w, v in pairs:
            if x < w:
                return v
            x -= w
        return pairs[-1][1]

    def subset(self, seq, num=1, den=2):
        seq = list(seq)
        if num * 2 == den:
            m = self.bits(len(seq)) if seq else 0
            return [x for i, x in enumerate(seq) if m >> i & 1]
        return [x for x in seq if self.chance(num, den)]

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.below(len(seq))))
        return out

    def shuffle(self, seq):
        """Fisher-Yates; all-zero input leaves the order unchanged."""
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.below(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq
