"""C18 generated subscriptions deliver every event once, in order."""
import clientgen
from clientcheck import ClientCheck


class C18(ClientCheck):
    id = "C18"
    runs = {"quick": 1200, "thorough": 30000}
    budget_s = {"quick": 80, "thorough": 1500}
    feats = clientgen.ALL
    n_ops = (4, 8)
    p_threads = 0.35
    judged = {"no_client", "wrong_client", "wrong_operation", "wrong_count", "wrong_outcome", "wrong_answer", "wrong_events", "not_released", "not_streamed", "lost_call", "stuck"}
    rule = ("one run = a seeded project, the client generated from it, and 6-20 overlapping subscriptions (some ordinary calls among them) as tasks on a virtual-time event loop or threads switched at seeded lines; "
            "streams deliver 0-8 events (equal ones in a row among them) with seeded gaps and then complete, break or stay silent; callers are slow, stop early, close or are cancelled; "
            "non-trivial = at least one event was delivered")
    assumptions = ["the proxy is written as turms' documentation shows: a generator that yields one value per event and releases its stream when closed"]

    def calls(self, r, ops, threads):
        out = []
        subs = [i for i, o in enumerate(ops) if o[0] == "subscription"]
        for _ in range(r.randint(6, 20)):
            c = self.call(r, ops, threads, 12, pick=r.choice(subs) if subs and r.random() < 0.85 else None)
            if "stream" not in c:
                c["exchanges"] = self.exchanges(r)
            elif not threads and r.random() < 0.25:
                c["cancel_at"] = round(c["t"] + r.random() * r.choice([0.01, 5, 20]), 3)
            out.append(c)
        return out

    def wants(self, ops):
        return any(o[0] == "subscription" for o in ops)


CHECK = C18()
