"""One whole query as a client makes it: parse, annotate, apply, infer, wire, instantiate - with every result kept for inspection."""
from mc import lib


class Chain:
    def __init__(self, text, para_first=False, inv=None):
        self.text = text
        self.inv = lib.parse(text) if inv is None else inv
        self.obs = []          # [(name, function returning the canonical form of a kept result)]
        self.mutable = []      # objects whose public lists a caller may change
        self.keep('invocation', lambda: lib.canon_inv(self.inv))
        self.mutable.append(self.inv)
        for part in ((self.para, self.io) if para_first else (self.io, self.para)):
            part()
        self.inst()

    def keep(self, name, f):
        self.obs.append((name, f))

    def io(self):
        self.io_info = i = lib.io_info(self.inv)
        self.withio = None
        if i is None:
            self.keep('no I/O information', lambda: None)
            return
        self.withio = w = i.apply_input_output_info_to_command_invocation(self.inv)
        oo = i.has_other_outputs()
        self.keep('I/O information', lambda: (lib.canon_withio(w), oo, i.has_other_outputs()))
        self.mutable += [i, w]

    def para(self):
        self.para_info = p = lib.para_info(self.inv)
        self.parallelizers = []
        if p is None:
            self.keep('no parallelizability information', lambda: None)
            return
        un = p.unpack_info()
        self.parallelizers = list(un[0])
        self.unpacked = un[0]
        self.keep('parallelizability information', lambda: ([short_parallelizer(x) for x in p.parallelizer_list], p.is_commutative,
                                                            [short_parallelizer(x) for x in un[0]], un[1], un[2]))
        self.mutable += [p, un[0]]

    def inst(self):
        self.wired = None
        if self.io_info is None:
            return
        self.wired = w = lib.Wired(self.inv)
        self.keep('invocation with variables', lambda: lib.canon_vars(w.inv))
        self.mutable.append(w.inv)
        if len(w.inv.generate_inputs().get_streaming_inputs()) != 1 or \
                sum(w.inv.access_map[v].is_stream_output() for v in w.inv.generate_outputs()) != 1:
            return
        for p in self.parallelizers:
            n = p.get_info_mapper_aggregator()
            m = p.get_actual_mapper(w.inv, w.fresh(), w.fresh(), [w.fresh() for _ in range(n)])
            if n:
                a = p.get_actual_2_ary_aggregator_with_aux(1, [2] * n, 3, [4] * n, 5, list(range(6, 6 + n)))
            else:
                a = p.get_actual_aggregator(w.inv, [w.fresh(), w.fresh()], w.fresh()) if p.get_aggregator_spec().is_implemented else None
            for x, name in ((m, 'mapper'), (a, 'aggregator')):
                if x is None:
                    self.keep(name, lambda: None)
                else:
                    self.keep(name, lambda x=x: lib.canon_vars(x))
                    self.mutable.append(x)

    def observe(self):
        return [(n, f()) for n, f in self.obs]

    def spoil(self):
        """the caller changes the public lists of everything it was given"""
        for o in self.mutable:
            for a in ('flag_option_list', 'operand_list', 'flagoption_list_typer', 'operand_list_typer', 'parallelizer_list'):
                l = getattr(o, a, None)
                if isinstance(l, list):
                    l.reverse()
                    l.append('spoiled')
            if isinstance(o, list):
                o.clear()
                o.append('spoiled')
            if hasattr(o, 'access_map'):
                o.access_map.clear()
            if hasattr(o, 'cmd_name'):
                o.cmd_name = 'spoiled'
            for a in ('implicit_use_of_streaming_input', 'implicit_use_of_streaming_output'):
                if hasattr(o, a):
                    setattr(o, a, 'spoiled')
            if hasattr(o, 'is_commutative'):
                o.is_commutative = not o.is_commutative
        for p in self.parallelizers:
            for a in list(vars(p)):
                setattr(p, a, 'spoiled')


PROBE = None


def short_parallelizer(p):
    global PROBE
    if PROBE is None:
        PROBE = [lib.Flag('-m'), lib.Flag('-n'), lib.Flag('-u'), lib.OptionWithIO('-k', lib.ArgStringType('1')), lib.OptionWithIOVar('-T', 3)]
    m, a = p.get_mapper_spec(), p.get_aggregator_spec()
    beh = lambda x: lib.canon_fo(x.flag_option_list_transformer.get_flag_option_list_after_transformer_application(list(PROBE))) \
        if hasattr(x, 'flag_option_list_transformer') else None
    return (p.get_splitter().kind.name, m.kind.name, m.spec_mapper_cmd_name, m.is_implemented, beh(m), a.get_kind().name, a.is_implemented,
            getattr(a, 'cmd_inv_as_str', None), beh(a), p.get_info_mapper_aggregator())
