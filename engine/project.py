class Projection:
    """which events/labels of the explored automaton are kept"""

    def __init__(self, eat=True, calls=True, args=True, flags=True, outcome=True, push=True, ret=True, retla=False, err=False, conds=True, flagset=None, drop_calls=()):
        self.eat, self.args, self.flags, self.outcome, self.push, self.ret, self.retla, self.err = eat, args, flags, outcome, push, ret, retla, err
        self._calls, self._conds, self.flagset, self.drop_calls = calls, conds, flagset, drop_calls

    def call(self, f):
        return self._calls and f not in self.drop_calls

    def cond(self, t):
        return self._conds

    def flag(self, n):
        if n in ("_tokens", "_comments", "_look_ahead", "current_position", "look_ahead_position", "found_eof", "failed", "scanner", "has_line_term"):
            return False
        return self.flagset is None or n in self.flagset


COVER = ("is_assignment_target", "is_binding_element", "first_covert_initialized_name_error")
CTXF = ("is_module", "allow_in", "allow_strict_directive", "allow_yield", "await", "in_function_body", "in_params", "in_iteration", "in_switch", "label_set", "strict", "past_prolog")

# GRAM: which token sequences / nonterminals are consumed and which look-aheads are accepted at the end
# AST : GRAM plus everything that flows into the tree that is returned
# CTX : GRAM plus the context (non cover) in force at every nonterminal call and at the return
# COV : GRAM plus the three cover-grammar flags at every call and at the return
# ERR : GRAM plus the failing paths and the error each returns
PROJ = {
    "GRAM": Projection(flags=False, push=False, ret=False, retla=True),
    "AST": Projection(flags=False),
    "CTX": Projection(push=False, ret=False, args=False, flagset=CTXF),
    "COV": Projection(push=False, ret=False, args=False, flagset=COVER),
    "ERR": Projection(push=False, ret=False, flags=False, err=True),
}


class Full(Projection):
    """everything a helper does: every field it writes, every result and error"""

    def __init__(self):
        Projection.__init__(self, err=True, retla=True)

    def flag(self, n):
        return n not in ("_tokens", "_comments", "_look_ahead", "current_position", "look_ahead_position")


PROJ["FULL"] = Full()


class Pos(Full):
    """the positions too"""

    def flag(self, n):
        return n not in ("_tokens", "_comments", "_look_ahead")


PROJ["POS"] = Pos()
NTPROJ = ("GRAM", "AST", "CTX", "COV", "ERR")


def projections(mode):
    return NTPROJ if mode == "nt" else ("POS",) if mode == "pos" else ("FULL",)
