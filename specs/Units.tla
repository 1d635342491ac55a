--------------------------------- MODULE Units ---------------------------------
(* Physical dimensions of everything that goes into or comes out of falwa, and  *)
(* the formulas of the method as expression trees, whose dimensions are derived. *)
EXTENDS Integers, Sequences

\* exponents of horizontal length, time, height and temperature
D(l, t, z, k) == <<l, t, z, k>>
One == D(0, 0, 0, 0)
AddD(x, y) == [i \in 1 .. 4 |-> x[i] + y[i]]
SubD(x, y) == [i \in 1 .. 4 |-> x[i] - y[i]]
\* power of two by which a quantity of dimension x is multiplied when the units of measurement shrink by 2^u
Shift(x, u) == x[1] * u[1] + x[2] * u[2] + x[3] * u[3] + x[4] * u[4]

Wind == D(1, -1, 0, 0)
Vort == D(0, -1, 0, 0)
Flux == D(2, -2, 0, 0)
Tend == D(1, -2, 0, 0)

(* ---- what the user gives ------------------------------------------------- *)
Inputs ==
  [u |-> Wind, v |-> Wind, theta |-> D(0, 0, 0, 1), omega |-> Vort, planet_radius |-> D(1, 0, 0, 0),
   dz |-> D(0, 0, 1, 0), scale_height |-> D(0, 0, 1, 0), dry_gas_constant |-> D(2, -2, 0, -1), cp |-> D(2, -2, 0, -1),
   ncforce |-> D(0, -2, 0, 0), heating_rate |-> D(0, -1, 0, 1),
   vort |-> Vort, area |-> D(2, 0, 0, 0), dmu |-> D(1, 0, 0, 0), vgrad |-> D(-2, -1, 0, 0)]

(* ---- what falwa returns -------------------------------------------------- *)
Outputs ==
  [qgpv |-> Vort, interpolated_u |-> Wind, interpolated_v |-> Wind, interpolated_theta |-> D(0, 0, 0, 1),
   stat |-> D(0, 0, -1, 1), stat_n |-> D(0, 0, -1, 1), stat_s |-> D(0, 0, -1, 1),
   qref |-> Vort, uref |-> Wind, ptref |-> D(0, 0, 0, 1),
   adv_flux_f1 |-> Flux, adv_flux_f2 |-> Flux, adv_flux_f3 |-> Flux, convergence_zonal_advective_flux |-> Tend,
   divergence_eddy_momentum_flux |-> Tend, meridional_heat_flux |-> Tend, flux_vector_lambda_baro |-> Flux,
   flux_vector_phi_baro |-> Flux, lwa_baro |-> Wind, u_baro |-> Wind, ncforce_baro |-> Tend, lwa |-> Wind,
   ua1 |-> Flux, ua2 |-> Flux, ep1 |-> Flux, ep2 |-> Flux, ep3 |-> Flux, stretch_term |-> Tend,
   layer_ncforce |-> Tend, only_lwa |-> Wind, only_u |-> Wind, ncforce_from_heating |-> D(0, -2, 0, 0),
   \* barotropic analysis
   baro_qref |-> Vort, baro_lwa |-> Wind, baro_fawa |-> Wind, baro_bracket |-> D(-2, -1, 0, 0), baro_forcing |-> Tend,
   theta_lwa |-> D(1, 0, 0, 1), theta_qref |-> D(0, 0, 0, 1)]

(* ---- formulas: V leaf, C number, T product, Q quotient, P sum ------------- *)
V(n) == [op |-> "v", n |-> n]
C(x) == [op |-> "c", x |-> x]
T(a, b) == [op |-> "t", a |-> a, b |-> b]
Q(a, b) == [op |-> "q", a |-> a, b |-> b]
P(a, b) == [op |-> "p", a |-> a, b |-> b]
\* not homogeneous
Bad == D(99, 99, 99, 99)
RECURSIVE Dim(_)
Dim(e) == CASE e.op = "v" -> Inputs[e.n] [] e.op = "c" -> One
            [] OTHER -> LET x == Dim(e.a) y == Dim(e.b)
                        IN  IF x = Bad \/ y = Bad THEN Bad
                            ELSE IF e.op = "t" THEN AddD(x, y) ELSE IF e.op = "q" THEN SubD(x, y)
                            ELSE IF x = y THEN x ELSE Bad

Cor == T(C(2), V("omega"))                                       \* times the sine of latitude
Stat == Q(V("theta"), V("dz"))
RelVort == P(Q(V("v"), V("planet_radius")), Q(V("u"), V("planet_radius")))
Decay(e) == T(e, P(C(1), Q(V("dz"), V("scale_height"))))         \* stands for exp(z/H)
Stretch(f) == Q(Decay(Q(f, Stat)), V("dz"))                      \* d/dz (density f / stability)
Pv == P(P(Cor, RelVort), T(Cor, Stretch(V("theta"))))
Lwa == T(Pv, V("planet_radius"))
\* circulation over the latitude circle
Cap == T(Pv, T(V("planet_radius"), V("planet_radius")))
CircWind == P(V("u"), P(Q(Cap, V("planet_radius")), T(V("omega"), V("planet_radius"))))
Kappa == Q(V("dry_gas_constant"), V("cp"))
Thermal == Q(T(T(V("dry_gas_constant"), V("theta")), Q(V("dz"), V("scale_height"))), T(Cor, V("planet_radius")))
RefTemp == P(V("theta"), Q(T(T(Cor, V("u")), T(V("planet_radius"), Q(V("scale_height"), V("dz")))), V("dry_gas_constant")))
Coefficient ==   \* of the inversion: must be a number
  P(C(1), Q(T(T(T(Cor, Cor), V("scale_height")), T(V("planet_radius"), V("planet_radius"))),
            T(T(V("dz"), V("dz")), T(V("dry_gas_constant"), Stat))))
Source == T(T(V("omega"), V("planet_radius")), Q(Pv, V("omega")))
HeatFlux == T(Cor, Q(T(V("v"), V("theta")), Stat))
Momentum == T(V("u"), V("v"))
LamFlux == P(P(T(V("u"), Lwa), T(V("u"), V("u"))), P(T(V("v"), V("v")), Q(T(T(V("dry_gas_constant"), V("theta")), V("theta")), T(V("scale_height"), Stat))))
Heated == T(Cor, Stretch(V("heating_rate")))

Formulas ==
  [qgpv |-> Pv, interpolated_u |-> V("u"), interpolated_v |-> V("v"), interpolated_theta |-> V("theta"),
   stat |-> Stat, stat_n |-> Stat, stat_s |-> Stat, qref |-> Pv, uref |-> P(CircWind, Thermal), ptref |-> RefTemp,
   adv_flux_f1 |-> T(V("u"), Lwa), adv_flux_f2 |-> T(V("u"), Lwa), adv_flux_f3 |-> LamFlux,
   convergence_zonal_advective_flux |-> Q(LamFlux, V("planet_radius")),
   divergence_eddy_momentum_flux |-> Q(Momentum, V("planet_radius")), meridional_heat_flux |-> Q(HeatFlux, V("scale_height")),
   flux_vector_lambda_baro |-> LamFlux, flux_vector_phi_baro |-> Momentum, lwa_baro |-> Lwa, u_baro |-> V("u"),
   ncforce_baro |-> T(V("ncforce"), V("planet_radius")), lwa |-> Lwa, ua1 |-> T(V("u"), Lwa), ua2 |-> T(V("u"), Lwa),
   ep1 |-> LamFlux, ep2 |-> Momentum, ep3 |-> Momentum, stretch_term |-> Q(Decay(HeatFlux), V("scale_height")),
   layer_ncforce |-> T(V("ncforce"), V("planet_radius")), only_lwa |-> Lwa, only_u |-> V("u"), ncforce_from_heating |-> Heated,
   baro_qref |-> V("vort"), baro_lwa |-> T(V("vort"), V("dmu")), baro_fawa |-> Q(T(V("vort"), V("area")), V("planet_radius")),
   baro_bracket |-> Q(T(V("vgrad"), V("area")), V("area")), baro_forcing |-> T(V("ncforce"), V("dmu")),
   theta_lwa |-> T(V("theta"), V("dmu")), theta_qref |-> V("theta")]
\* conditions of the method: what is compared or exponentiated is a number
Numbers == [kappa |-> Kappa, coefficient |-> Coefficient, decay |-> Q(V("dz"), V("scale_height")),
            equivalent_latitude |-> Q(V("area"), T(V("planet_radius"), V("planet_radius")))]
================================================================================
