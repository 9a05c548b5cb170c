"""C17 each caller of a generated function gets its own answer."""
import clientgen
from clientcheck import ClientCheck


class C17(ClientCheck):
    id = "C17"
    runs = {"quick": 1200, "thorough": 30000}
    budget_s = {"quick": 80, "thorough": 1500}
    feats = clientgen.ALL
    n_ops = (2, 5)
    p_threads = 0.5
    judged = {"no_client", "wrong_client", "wrong_operation", "wrong_count", "wrong_outcome", "wrong_answer", "wrong_arguments", "lost_call", "stuck"}
    rule = ("one run = a seeded project, the client generated from it, and 15-45 overlapping calls of its functions - tasks on a virtual-time event loop or threads switched at seeded lines of the generated code - "
            "through up to three clients; exchanges are delayed, reordered, lost, answered with errors, retried and cancelled; each caller must observe the outcome of its own exchange; "
            "non-trivial = at least one exchange took place")
    assumptions = ["the proxy is written as turms' documentation shows and answers each call with the response to that call's own request"]
    only = {"query", "mutation"}

    def calls(self, r, ops, threads):
        out = []
        crowd = r.random() < 0.4  # all at once
        for _ in range(r.randint(15, 45)):
            c = self.call(r, ops, threads, 0.01 if crowd else 15)
            c["exchanges"] = self.exchanges(r)
            if not threads and r.random() < 0.15:
                c["cancel_at"] = round(c["t"] + r.choice([0, 0.0001, 1, 4]) * r.random(), 4)
            if r.random() < 0.15:
                c["spoil"] = True
            out.append(c)
        return out


CHECK = C17()
