"""C19 requests are valid and carry exactly the arguments given."""
import clientgen
from clientcheck import ClientCheck


class C19(ClientCheck):
    id = "C19"
    runs = {"quick": 1200, "thorough": 30000}
    budget_s = {"quick": 80, "thorough": 1500}
    feats = clientgen.ALL
    n_ops = (3, 6)
    p_threads = 0.4
    judged = {"no_client", "bad_request", "wrong_arguments", "wrong_request"}
    rule = ("one run = a seeded schema, documents and options, the client generated from them, and 10-30 calls of its functions (sync in threads or async, overlapping, delayed, retried after lost requests and "
            "responses, some cancelled) with seeded arguments: omitted, UNSET, null, falsy and other values, nested inputs given as models, dicts or through make_ functions; every request is validated and "
            "executed by a simulated server and compared with the operation written and the arguments given; non-trivial = at least one request arrived")
    assumptions = ["the proxy encodes arguments as turms' documentation shows: Arguments(**variables).dict(by_alias=True, exclude_unset=True)",
                   "operations that select an object twice with different selections GraphQL would merge are left out (known finding of C20)"]

    def calls(self, r, ops, threads):
        out = []
        for _ in range(r.randint(10, 30)):
            c = self.call(r, ops, threads, 10)
            if "stream" in c:
                c["stream"].update(end="complete", slow=0, n=1, aclose=False)
                c["stream"].pop("take", None)
            else:
                c["exchanges"] = self.exchanges(r)
                if not threads and r.random() < 0.1:
                    c["cancel_at"] = round(r.random() * 12, 3)
            if r.random() < 0.2:
                c["spoil"] = True
            out.append(c)
        return out


CHECK = C19()
