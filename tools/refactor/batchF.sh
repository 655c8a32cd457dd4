"$(dirname "$0")"/rt.sh F <<'EOF'
from ed import sub
p="logic/stamping/lagrangesegment.py"
sub(p,("""    for symbol in expr.free_symbols:
        if symbol in vars:
            return False
    return True

def is_linear""","""    return not any(symbol in vars for symbol in expr.free_symbols)

def is_linear"""),
("""    var_found = False
    for symbol in expr.free_symbols:
        if symbol in vars:
            if var_found:
                return False
            elif len(expr.atoms(Pow)) > 0:
                return False
            var_found = True
    return True ""","""    found = [symbol for symbol in expr.free_symbols if symbol in vars]
    if len(found) != 1:
        return False
    return len(expr.atoms(Pow)) == 0"""),
("""    result = None
    for symbol in expr.free_symbols:
        if symbol in vars:
            result = symbol
    return result
""","""    return next(symbol for symbol in expr.free_symbols if symbol in vars)
"""),
("""            if not term in variable_expr_dict:
                variable_expr_dict[term] = 0
            variable_expr_dict[term] += diff(expr, term)""","""            variable_expr_dict[term] = variable_expr_dict.get(term, 0) + diff(expr, term)"""),
("""                if not key in variable_expr_dict:
                    variable_expr_dict[key] = 0
                variable_expr_dict[key] += value""","""                _accumulate(variable_expr_dict, key, value)"""),
("""def split_expr(""","""def _accumulate(d, key, value):
    if key in d:
        d[key] = d[key] + value
    else:
        d[key] = value

def split_expr("""),
("""            free_syms = self.constant_expr.free_symbols
            is_linear = not any([(x in free_syms) for x in variables])
            self.evals.append(EvaluationEntry(None, self.constant_eval, self.constant_expr, True, is_linear))""",
"""            self.evals.append(EvaluationEntry(None, self.constant_eval, self.constant_expr, True, is_constant(self.constant_expr, variables)))"""),
("""            free_syms = expr.free_symbols
            is_linear = not any([(x in free_syms) for x in variables])
            self.evals.append(EvaluationEntry(variable, func, expr, False, is_linear))""",
"""            is_linear = all(x not in expr.free_symbols for x in variables)
            self.evals.append(EvaluationEntry(variable, func, expr, is_constant_expr=False, is_linear=is_linear))"""),
("""        for dual in self.duals:
            primal = self.primals[self.duals.index(dual)]
            self.__dual_primal_map_str[str(dual)] = str(primal)""","""        for dual, primal in zip(self.duals, self.primals):
            self.__dual_primal_map_str[str(dual)] = str(primal)"""),
("""        if LagrangeSegment._pickler.has_pickle(self.lagrange_key):
            try:
                self._derivatives = LagrangeSegment._pickler.try_unpickle(self.lagrange_key)
            except:
                self._generate_derivatives()
        else:
            self._generate_derivatives()

        return self._derivatives""","""        loaded = None
        pickler = LagrangeSegment._pickler
        if pickler.has_pickle(self.lagrange_key):
            try:
                loaded = pickler.try_unpickle(self.lagrange_key)
            except Exception:
                loaded = None
        if loaded is None:
            self._generate_derivatives()
        else:
            self._derivatives = loaded

        return self._derivatives"""),
("""        for first_order in self.variables:
            derivative = diff(self.lagrange, first_order)

            constant_expr, variable_exprs = split_expr(derivative, self.variables)

            self._derivatives[first_order] = DerivativeEntry(first_order, derivative, constant_expr, variable_exprs, self.parameters, self.variables)
""","""        self._derivatives = {x: self._entry_for(x) for x in self.variables}
"""),
("""#Basic equality constraint""","""    def _entry_for(self, variable):
        derivative = diff(self.lagrange, variable)
        (const, var_exprs) = split_expr(derivative, self.variables)
        return DerivativeEntry(variable, derivative, const, var_exprs, self.parameters, self.variables)

#Basic equality constraint"""),
)
EOF
"$(dirname "$0")"/rt.sh F2 <<'EOF'
from ed import sub
p="logic/stamping/lagrangesegment.py"
sub(p,("""        if kcl_r_to != None and kcl_i_to != None:
            self.kcl_r_to = kcl_r_to
            self.kcl_i_to = kcl_i_to
        else:
            self.kcl_r_to = kcl_r_from
            self.kcl_i_to = kcl_i_from
""","""        has_to = kcl_r_to is not None and kcl_i_to is not None
        self.kcl_r_to = kcl_r_to if has_to else kcl_r_from
        self.kcl_i_to = kcl_i_to if has_to else kcl_i_from
"""),
("""        check_missing_symbols(declared_symbols, self.kcl_r_from.constraint_eqn)
        lambdas.append(Lr_from)
        lagrange += Lr_from * self.kcl_r_from.constraint_eqn
        check_missing_symbols(declared_symbols, self.kcl_i_from.constraint_eqn)
        lambdas.append(Li_from)
        lagrange += Li_from * self.kcl_i_from.constraint_eqn

        check_missing_symbols(declared_symbols, self.kcl_r_to.constraint_eqn)
        lambdas.append(Lr_to)
        lagrange += Lr_to * -self.kcl_r_to.constraint_eqn
        check_missing_symbols(declared_symbols, self.kcl_i_to.constraint_eqn)
        lambdas.append(Li_to)
        lagrange += Li_to * -self.kcl_i_to.constraint_eqn
        
        for equality in equalities:
            check_missing_symbols(declared_symbols, equality.constraint_eqn)
            lambda_sym = Symbol(f"lambda_{next(_lambda_ids)}")
            lambdas.append(lambda_sym)
            lagrange += lambda_sym * equality.constraint_eqn
        
        super().__init__(lagrange, constants, variables, lambdas)

class ModelDefinition""","""        for (dual, kcl, sign) in ((Lr_from, self.kcl_r_from, 1), (Li_from, self.kcl_i_from, 1), (Lr_to, self.kcl_r_to, -1), (Li_to, self.kcl_i_to, -1)):
            check_missing_symbols(declared_symbols, kcl.constraint_eqn)
            lambdas.append(dual)
            lagrange = lagrange + sign * dual * kcl.constraint_eqn

        extra, extra_lambdas = _equality_terms(equalities, declared_symbols)
        lagrange += extra
        lambdas += extra_lambdas

        super().__init__(lagrange, constants, variables, lambdas)

def _equality_terms(equalities, declared_symbols):
    total = 0
    syms = []
    for equality in equalities:
        check_missing_symbols(declared_symbols, equality.constraint_eqn)
        syms.append(Symbol("lambda_" + str(next(_lambda_ids))))
        total += syms[-1] * equality.constraint_eqn
    return total, syms

class ModelDefinition"""),
("""    for symbol in eqn.free_symbols:
        if symbol not in declared_symbols:
            raise Exception(f"The symbol ({symbol}) in equation {eqn} was not supplied as a variable or constant.")""",
"""    missing = [s for s in eqn.free_symbols if s not in declared_symbols]
    if len(missing) > 0:
        raise Exception(f"The symbols ({missing}) in equation {eqn} were not supplied as a variable or constant.")"""),
("""    expressions = eqn.args
    else:
        expressions = [eqn]
""","""    expressions = eqn.args
    else:
        expressions = (eqn,)
"""),
("""        if tx_factor in self.constants:
            self.tx_factor_index = self.constants.index(tx_factor) 
        else:
            self.tx_factor_index = SKIP""","""        self.tx_factor_index = self.constants.index(tx_factor) if tx_factor in self.constants else SKIP"""),
("""        self.lagrange_key = f"{LagrangeSegment.VERSION},{lagrange},{self.constants},{self.primals},{self.duals}\"""","""        self.lagrange_key = ",".join(str(x) for x in (LagrangeSegment.VERSION, lagrange, self.constants, self.primals, self.duals))"""),
)
sub("logic/stamping/lagrangepickler.py",("""        sha1 = hashlib.sha1()
        sha1.update(lagrange_key.encode('utf8'))
        hash = sha1.hexdigest()
        hash = hash[:10]
        return os.path.join(self.pickle_dir, f"{hash}.p")""","""        digest = hashlib.sha1(lagrange_key.encode('utf8')).hexdigest()
        return os.path.join(self.pickle_dir, digest[:10] + ".p")"""),
("""        derivatives = dill.load(open(pickle_filepath, "rb"))

        return derivatives""","""        with open(pickle_filepath, "rb") as f:
            return dill.load(f)"""),
("""        dill.dump(derivatives, open(pickle_file, "wb" ) )""","""        with open(pickle_file, "wb") as f:
            dill.dump(derivatives, f)"""),
("""        if not os.path.exists(self.pickle_dir):
            os.makedirs(self.pickle_dir)""","""        os.makedirs(self.pickle_dir, exist_ok=True)"""))
EOF
"$(dirname "$0")"/rt.sh F3 <<'EOF'
from ed import sub
p="logic/stamping/matrixbuilder.py"
sub(p,("""        if self._index == self._max_index:
            self._row.append(row)
            self._col.append(column)
            self._val.append(value)
            self._index += 1
            self._max_index += 1
            return

        self._row[self._index] = row
        self._col[self._index] = column
        self._val[self._index] = value
        self._index += 1
""","""        if self._index < self._max_index:
            self._row[self._index] = row
            self._col[self._index] = column
            self._val[self._index] = value
        else:
            self._row.append(row)
            self._col.append(column)
            self._val.append(value)
            self._max_index += 1
        self._index += 1
"""),("""        del self._row[retain_idx:]
        del self._col[retain_idx:]
        del self._val[retain_idx:]
        self._max_index = retain_idx""","""        self._row = self._row[:retain_idx]
        self._col = self._col[:retain_idx]
        self._val = self._val[:retain_idx]
        self._max_index = len(self._row)"""),
("""        for idx in range(self._index):
            row = self._row[idx]
            if row == row_idx:
                yield (self._col[idx], self._val[idx])""","""        for row, col, val in zip(self._row, self._col, self._val):
            if row == row_idx:
                yield (col, val)"""))
p="logic/stamping/lagrangestampdetails.py"
sub(p,("""        self._var_str_map = {str(x[0]): x[1] for x in var_map.items()}""","""        self._var_str_map = self._by_name(var_map)"""),
("""            self._eqn_map_str = {str(x[0]): x[1] for x in eqn_map.items()}
    ""","""            self._eqn_map_str = self._by_name(eqn_map)

    @staticmethod
    def _by_name(mapping):
        return {str(k): v for (k, v) in mapping.items()}
    """),
("""        if self.optimization_enabled:
            return self._eqn_map_str[variable_str]
        else:
            return self._eqn_map_str[self.lsegment.get_duals_corresponding_primal(variable_str)]""",
"""        if not self.optimization_enabled:
            variable_str = self.lsegment.get_duals_corresponding_primal(variable_str)
        return self._eqn_map_str[variable_str]"""),
("""    index_map[Vr_from] = from_bus.node_Vr
    index_map[Vi_from] = from_bus.node_Vi
    index_map[Lr_from] = from_bus.node_lambda_Vr
    index_map[Li_from] = from_bus.node_lambda_Vi
    index_map[Vr_to] = to_bus.node_Vr
    index_map[Vi_to] = to_bus.node_Vi
    index_map[Lr_to] = to_bus.node_lambda_Vr
    index_map[Li_to] = to_bus.node_lambda_Vi
""","""    for (bus, vr, vi, lr, li) in [(from_bus, Vr_from, Vi_from, Lr_from, Li_from), (to_bus, Vr_to, Vi_to, Lr_to, Li_to)]:
        index_map.update({vr: bus.node_Vr, vi: bus.node_Vi, lr: bus.node_lambda_Vr, li: bus.node_lambda_Vi})
"""),
("""        if dual not in index_map:
            if optimization_enabled:
                index_map[dual] = next(node_index)
            else:
                index_map[dual] = SKIP""","""        if dual in index_map:
            continue
        index_map[dual] = next(node_index) if optimization_enabled else SKIP"""))
EOF
