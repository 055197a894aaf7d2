"""C01: the symbol-version verdict is sound and maximal."""

POLICIES = "auditwheel.policy:WheelPolicies"


def ns(version):
    """symbol namespace of a version string: the text before the first underscore"""
    return version.partition("_")[0]


def versions_wf(versioned_symbols):
    return True


def policy_permits(policy, versioned_symbols):
    """every required version lies in the policy's list for its namespace, if the policy constrains that namespace"""
    return all(
        any(v == ns(v) + "_" + x for x in policy.symbol_versions[ns(v)])
        for vs in versioned_symbols.values() for v in vs if ns(v) in policy.symbol_versions
    )


def catalogue_ordered(self):
    """class invariant of the catalogue (C15): priorities increase strictly along the list"""
    return all(self._policies[i].priority < self._policies[j].priority
               for i in range(len(self._policies)) for j in range(i + 1, len(self._policies)))


def catalogue_bottom(self):
    """class invariant of the catalogue (C15): the first policy constrains no namespace"""
    return len(self._policies) > 0 and not any(True for n in self._policies[0].symbol_versions)


def in_catalogue(self, result):
    return any(result == p for p in self._policies)


def sound(result, versioned_symbols):
    return policy_permits(result, versioned_symbols)


def maximal(self, result, versioned_symbols):
    return all(implies(policy_permits(p, versioned_symbols), p.priority <= result.priority) for p in self._policies)


OPAQUE = {}

CONTRACTS = [
    dict(
        fn=POLICIES + ".versioned_symbols_policy",
        props=["C01"],
        reveal=["policy_permits"],
        requires=["catalogue_ordered", "catalogue_bottom"],
        ensures={"in-catalogue": "in_catalogue", "sound": "sound", "maximal": "maximal"},
    ),
]
