"""C20 generated clients read every valid answer, also of servers that moved on."""
import random

FUNCS = {"type": "turms.plugins.funcs.FuncsPlugin", "collapse_lonely": True, "definitions": [
    {"type": t, "is_async": a, "use": f"simclient.{'a' if a else ''}{f}"}
    for a in (False, True) for t, f in (("query", "execute"), ("mutation", "execute"), ("subscription", "subscribe"))]}
BASE = {"out_dir": "api", "generated_name": "api.py", "stylers": [], "scalar_definitions": {},
        "plugins": [{"type": f"turms.plugins.{p}"} for p in ("enums.EnumsPlugin", "inputs.InputsPlugin", "fragments.FragmentsPlugin", "operations.OperationsPlugin")] + [FUNCS]}
STYLE = {**BASE, "stylers": [{"type": "turms.stylers.capitalize.CapitalizeStyler"}, {"type": "turms.stylers.snake_case.SnakeCaseStyler"}]}
SDL = """type Query { rocket: Rocket! }
type Rocket { id: ID! name: String! owner: Person! }
type Person { id: ID! name: String! age: Int! }
"""
# Shapes the generator is known not to support (known_findings.jsonl); the seeded projects leave them out.
UNION = "type Query { thing: Thing! }\nunion Thing = Rocket\ntype Rocket { x: Int! y: Int! }\n"
SCENARIOS = {
    "unmerged_fragments": (SDL, ["fragment RocketA on Rocket { owner { id name } }", "fragment RocketB on Rocket { owner { id age } }", "query GetRocket { rocket { ...RocketA ...RocketB } }"]),
    "unmerged_own": (SDL, ["fragment RocketA on Rocket { owner { id name } }", "query GetRocket { rocket { ...RocketA owner { age } } }"]),
    "redundant_spread": (SDL, ["fragment RocketA on Rocket { id name }", "fragment RocketB on Rocket { owner { id } ...RocketA }", "query GetRocket { rocket { ...RocketA ...RocketB } }"]),
    "aliased_typename": (SDL, ["query GetRocket { rocket { kind: __typename id } }"]),
    "field_named_like_type": ("type Query { rocket: Rocket! }\ntype Rocket { str: String name: String! }\n", ["query GetRocket { rocket { str name } }"]),
    "names_become_equal": ("type Query { rocket: Rocket! }\ntype Rocket { userName: String! user_name: String! }\n", ["query GetRocket { rocket { userName user_name } }"]),
    "field_named_typename": ("type Query { rocket: Rocket! }\ntype Rocket { typename: String! }\n", ["query GetRocket { rocket { typename } }"]),
    "fragment_named_like_enum": ("type Query { rocket: Rocket! }\ntype Rocket { color: Color! }\nenum Color { RED BLUE }\n", ["fragment Color on Rocket { color }", "query GetRocket { rocket { ...Color } }"]),
    "conditional_fragment": (SDL, ["fragment RocketA on Rocket { id name }", "query GetRocket { rocket { id ...RocketA @include(if: false) } }"]),
    "operation_named_like_function": (SDL, ["query rocket { rocket { id } }"]),
    "union_member_twice": (UNION, ["query GetThing { thing { ... on Rocket { x } ... on Rocket { y } } }"]),
    "nested_inline_fragment": (UNION, ["query GetThing { thing { ... on Rocket { x ... on Rocket { y } } } }"]),
    "inline_in_object_fragment": (UNION, ["fragment RocketA on Rocket { x ... on Rocket { y } }", "query GetThing { thing { ...RocketA } }"]),
    "field_selected_twice": (SDL, ["query GetRocket { rocket { owner { id } owner { age } } }"]),
}
STYLED = {"names_become_equal"}

import clientgen
from clientcheck import ClientCheck


class C20(ClientCheck):
    id = "C20"
    runs = {"quick": 1500, "thorough": 40000}
    budget_s = {"quick": 80, "thorough": 1500}
    feats = clientgen.ALL
    n_ops = (3, 6)
    p_threads = 0.2
    judged = {"no_client", "unreadable", "misread"}
    rule = ("one run = a seeded schema, documents and options, the client generated from them, and 10-30 calls and subscriptions of its functions against 1-3 simulated servers whose answers are seeded "
            "(nulls, empty and nested lists, every member of unions and interfaces), some servers upgraded additively between the calls; every answer is compared with what the caller can read; "
            "non-trivial = at least one exchange took place")
    assumptions = ["upgrades add implementations of interfaces, fields, optional arguments and root fields; new members of unions and new enum values are not covered by the statement",
                   "objects of unknown implementation types are expected to be readable only with create_catchall (the default)"]

    def plan(self, seed, tier, index):
        names = sorted(SCENARIOS)
        if index < len(names):
            return {"seed": seed, "scenario": names[index], "project": {"sdl": SCENARIOS[names[index]][0], "docs": SCENARIOS[names[index]][1], "turms": STYLE if names[index] in STYLED else BASE, "feats": []}, "threads": False, "servers": 1, "sched": 1, "p": 0.5,
                    "calls": [{"op": 0, "async": True, "t": 0, "vseed": 1, "client": 0, "default": 0, "positional": False}], "upgrades": []}
        return super().plan(seed, tier, index)

    def run(self, plan):
        o = super().run(plan)
        if plan.get("scenario"):
            for v in o.violations:
                v["cls"] = "scenario_" + plan["scenario"] + "_" + v["cls"]
        return o

    def calls(self, r, ops, threads):
        out = []
        for _ in range(r.randint(10, 30)):
            c = self.call(r, ops, threads, 20)
            if "stream" in c:
                c["stream"].update(end="complete", slow=0, n=r.choice([1, 3, 5]), aclose=False)
                c["stream"].pop("take", None)
            if r.random() < 0.4:
                c["exchanges"] = [{"d1": r.choice([0, 0.5, 3]), "d2": r.choice([0, 1, 5])}]
            out.append(c)
        return out

    def upgrades(self, r, plan):
        import client
        if r.random() < 0.5:
            return []
        out = []
        p = plan["project"]
        for k in range(r.randint(1, 3)):
            sdl, kinds = client.upgrade_sdl(r, p["sdl"], k)
            if p["turms"].get("create_catchall") is False and "new_implementation" in kinds:
                continue
            out.append({"t": round(r.random() * 15, 2), "server": r.randrange(3), "sdl": sdl, "kinds": kinds})
        return out


CHECK = C20()
