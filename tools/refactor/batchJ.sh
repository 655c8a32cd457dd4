"$(dirname "$0")"/rt.sh J1 <<'EOF'
from ed import sub
p="logic/powerflowresults.py"
s=open(p).read()
s=s.replace('''        self.V_mag = abs(self.V)
        if self.V_mag < 1e-8:
            self.V_deg = 0
        else:
            #Voltage angle in radians
            self.V_ang = cmath.phase(self.V)
            #Voltage angle in degrees
            self.V_deg = math.degrees(self.V_ang)
''','''        (self.V_mag, angle) = cmath.polar(self.V)
        self.V_deg = 0
        if self.V_mag >= 1e-8:
            #Voltage angle in radians
            self.V_ang = angle
            #Voltage angle in degrees
            self.V_deg = angle * 180 / math.pi
''')
i=s.index("        for bus in network.buses:"); j=s.index("        self.max_residual = ")
s=s[:i]+'''        self.bus_results.extend(self._bus_result(bus) for bus in network.buses if not bus.IsVirtual)
        self.generator_results += [GeneratorResult(g, g.P, v_final[g.get_Q_index()], GENTYPE.PV) for g in network.generators]
        for load in network.loads:
            self.load_results.append(LoadResult(load, load.P, load.Q, GENTYPE.PQ))
        self.generator_results += [self._slack_result(s) for s in network.slack]

'''+s[j:]
s=s.replace('''    def try_load_infeasibility_data(self):
''','''    def _bus_result(self, bus):
        v = self.v_final
        lambda_r = lambda_i = None
        if self.network.optimization is not None:
            lambda_r, lambda_i = v[bus.node_lambda_Vr], v[bus.node_lambda_Vi]
        return BusResult(bus, v[bus.node_Vr], v[bus.node_Vi], lambda_r, lambda_i)

    def _slack_result(self, slack):
        v = self.v_final
        V = complex(v[slack.bus.node_Vr], v[slack.bus.node_Vi])
        I = complex(v[slack.get_slack_Ir_index()], v[slack.get_slack_Ii_index()])
        S = V * I.conjugate()
        return GeneratorResult(slack, S.real, S.imag, GENTYPE.Slack)

    def try_load_infeasibility_data(self):
''')
s=s.replace('''            P = Vr * inf_Ir
            if P < 1e-5:
                P = 0
            Q = Vi * inf_Ii
            if Q < 1e-5:
                Q = 0
''','''            P = self._drop_small(Vr * inf_Ir)
            Q = self._drop_small(Vi * inf_Ii)
''').replace('''    def display(self, verbose=False):
        print("=====================")
''','''    @staticmethod
    def _drop_small(value):
        return 0 if value < 1e-5 else value

    def display(self, verbose=False):
        print("=====================")
''',1)
s=s.replace('''        for gen_result in self.generator_results:
            (P, Q) = gen_result.P, gen_result.Q
            if abs(P) < 1e-5 and abs(Q) < 1e-5:
                continue

            if gen_result.type_str == GENTYPE.Inf:
                results.append(gen_result)

        return results''','''        return [r for r in self.generator_results if r.type_str == GENTYPE.Inf and (abs(r.P) >= 1e-5 or abs(r.Q) >= 1e-5)]''')
i=s.index('        voltagefilepath=Path('); j=s.index("class QuasiTimeSeriesResults")
s=s[:i]+'''        self._write(Path(f"{outputfilepath}_voltage.csv"), "bus,name,v_magnitude,v_ang_degrees\\n", self.bus_results)
        self._write(Path(f"{outputfilepath}_power.csv"), "bus,name,P(MW),Q(MVar)\\n", self.generator_results + self.load_results)

    def _write(self, path, header, rows):
        path.parent.mkdir(parents=True, exist_ok=True)
        with open(path, "w+") as f:
            if not self.is_success:
                f.write("FAILURE")
                return
            f.write(header)
            for row in rows:
                f.write(row.csv_string())
            if getattr(self, "violates_equipment_ratings", False):
                f.write("VIOLATED EQUIPMENT RATINGS")

'''+s[j:]
s=s.replace('''"{:.2f}".format(self.P)},''','''self.P:.2f},''')
s=s.replace('''        return Vr_pri * self.Ir_prim + Vi_pri * self.Ii_prim
''','''        return (complex(Vr_pri, Vi_pri) * complex(self.Ir_prim, -self.Ii_prim)).real
''')
open(p,'w').write(s)
EOF
"$(dirname "$0")"/rt.sh J2 <<'EOF'
from ed import sub
p="logic/powerflowresults.py"
s=open(p).read()
s=s.replace('''        v_mag_str = "{:.3f}".format(self.V_mag)
        v_ang_str = "{:.3f}".format(self.V_deg)
''','''        v_mag_str = f"{self.V_mag:.3f}"
        v_ang_str = "%.3f" % self.V_deg
''')
s=s.replace('''            P = Vr * slack_Ir + Vi * slack_Ii
            Q = Vi * slack_Ir - Vr * slack_Ii
''','''            V = Vr + 1j * Vi
            S = V * np.conj(slack_Ir + 1j * slack_Ii)
            P = np.real(S)
            Q = np.imag(S)
''')
s=s.replace('''        if self.network.optimization == None or not (isinstance(self.network.optimization, L2InfeasibilityOptimization) or isinstance(self.network.optimization, L1InfeasibilityOptimization)):
            return
''','''        if not isinstance(self.network.optimization, (L1InfeasibilityOptimization, L2InfeasibilityOptimization)):
            return
''')
s=s.replace('''        for infeasibility_current in self.network.optimization.infeasibility_currents:
            Vr''','''        v_final = self.v_final
        for infeasibility_current in self.network.optimization.infeasibility_currents:
            Vr''')
s=s.replace('''            if isinstance(self.network.optimization, L2InfeasibilityOptimization):
                inf_Ir = self.v_final[infeasibility_current.node_Ir_inf]
                inf_Ii = self.v_final[infeasibility_current.node_Ii_inf]
            elif isinstance(self.network.optimization, L1InfeasibilityOptimization):
                inf_Ir = self.v_final[infeasibility_current.node_Ir_plus_inf] - self.v_final[infeasibility_current.node_Ir_minus_inf]
                inf_Ii = self.v_final[infeasibility_current.node_Ii_plus_inf] - self.v_final[infeasibility_current.node_Ii_minus_inf]
''','''            inf_Ir, inf_Ii = self._injected_current(infeasibility_current)
''')
s=s.replace('''    def display(self, verbose=False):
        print("=====================")
''','''    def _injected_current(self, c):
        if isinstance(self.network.optimization, L2InfeasibilityOptimization):
            return self.v_final[c.node_Ir_inf], self.v_final[c.node_Ii_inf]
        plus_r, plus_i = (self.v_final[k] for k in (c.node_Ir_plus_inf, c.node_Ii_plus_inf))
        minus_r, minus_i = (self.v_final[k] for k in (c.node_Ir_minus_inf, c.node_Ii_minus_inf))
        return plus_r - minus_r, plus_i - minus_i

    def display(self, verbose=False):
        print("=====================")
''',1)
s=s.replace('''        for hour, pf_result in self.powerflow_snapshot_results.items():
            pf_result.output(f"{outputfilepath}_{hour}")''','''        for hour in self.powerflow_snapshot_results:
            self.powerflow_snapshot_results[hour].output(str(outputfilepath) + "_" + str(hour))''')
s=s.replace('''[snapshot_results.v_final[idx] for idx in primal_indices]''','''(snapshot_results.v_final[idx] for idx in primal_indices)''')
open(p,'w').write(s)
EOF
