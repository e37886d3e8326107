process_count = None


class ForEach:
    def __init__(self, process):
        self.f = process
        self.pool = self

    def imap(self, f, jobs):
        return (f(j) for j in jobs)

    def __call__(self, jobs):
        yield from [self.f(j) for j in jobs]
