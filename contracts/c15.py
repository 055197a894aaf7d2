"""C15: the policy catalogue."""
from __future__ import annotations

POLICIES = "auditwheel.policy:WheelPolicies"


# ---------------------------------------------------------------- get_policy_by_name
def called(p, name):
    return p.name == name or name in p.aliases


def is_named(self, name, result):
    return called(result, name) and any(p == result for p in self._policies)


def none_named(self, name):
    return all(not called(p, name) for p in self._policies)


def two_named(self, name):
    return any(called(p, name) and called(q, name) and i < j for i, p in enumerate(self._policies) for j, q in enumerate(self._policies))


CONTRACTS = [
    dict(fn=POLICIES + ".get_policy_by_name", props=["C15", "C07"], ensures={"named": "is_named"},
         raises={"LookupError": "none_named", "RuntimeError": "two_named"}),
]
