----------------------------- MODULE Construct -------------------------------
(* What may be built, and what it then consists of (C27).  Arguments are      *)
(* descriptors: <<"int", n>>, <<"list", <<...>>>>, <<"float", n>>, ...        *)
EXTENDS Integers, Sequences, FiniteSets

\* networks: layers n, sizes s, activations a
LayersOK(n) == n[1] = "int" /\ n[2] > 0
SizesOK(n, s) == \/ s[1] = "int" /\ s[2] > 0
                 \/ s[1] = "list" /\ Len(s[2]) = n[2] /\ \A i \in 1..Len(s[2]) : s[2][i] > 0
ActsOK(n, a) == a[1] \in {"none", "module"} \/ (a[1] = "list" /\ a[2] = n[2])       \* a list of a[2] modules; "bad": a list with something else
NetOK(n, s, a) == LayersOK(n) /\ SizesOK(n, s) /\ ActsOK(n, a)
SizeList(n, s) == IF s[1] = "int" THEN [i \in 1..n[2] |-> s[2]] ELSE s[2]
\* weight matrices, input to output, as <<rows, columns>>
Weights(n, s) == LET z == SizeList(n, s) IN
                 [i \in 1..(n[2] + 1) |-> << IF i = n[2] + 1 THEN 3 ELSE z[i], IF i = 1 THEN 3 ELSE z[i - 1] >>]
RECURSIVE Count(_)
Count(ws) == IF ws = <<>> THEN 0 ELSE Head(ws)[1] * Head(ws)[2] + Count(Tail(ws))
NetParams(n, s, nu) == Count(Weights(n, s)) + (IF nu THEN 1 ELSE 0)

\* calibration problems
Components == {3, 4, 6}
PhysOK(p) == p[1] > 0 /\ p[2] > 0 /\ p[3] > 0            \* signs of L, Gamma, sigma
ProblemOK(nc, p) == nc \in Components /\ PhysOK(p)
VectorLen(et, n, h, nu, sp) == 3 + (IF sp THEN 2 ELSE 0) + (IF et = "TAUNET" THEN NetParams(<<"int", n>>, <<"int", h>>, nu) ELSE 0)

\* wind-field generators
Models == {"DRD", "VK", "Mann"}
GenOK(m, missing, path, nd, nl) == /\ m \in Models /\ nd = 3 /\ nl = 3
                                   /\ IF m = "DRD" THEN path = "file" ELSE missing = {}
\* kernels, random fields, domains
KernelOK(ndim) == ndim = 3
DomainOK(nd, nl) == nd = 3 /\ nl = 3

\* what the parameter classes stand for if nothing else is said; <<name, value>> in the order of the
\* positional arguments, numbers as text
Defaults == [
  ProblemParameters |-> << <<"num_components", "4">>, <<"learning_rate", "0.1">>, <<"tol", "0.001">>, <<"nepochs", "10">>, <<"init_with_noise", "False">>, <<"noise_magnitude", "0.001">>,
                           <<"eddy_lifetime", "TAUNET">>, <<"wolfe_iter_count", "20">>, <<"learn_nu", "False">>, <<"use_learnable_spectrum", "False">>, <<"p_exponent", "4.0">>, <<"q_exponent", "17/6">> >>,
  PhysicalParameters |-> << <<"Uref", "10.0">>, <<"zref", "1.0">>, <<"ustar", "1.0">>, <<"k_inf_asymptote", "-2/3">>, <<"alpha_low", "4.0">>, <<"alpha_high", "-5/3">>, <<"transition_slope", "17/3">>,
                            <<"wavenumber_conversion_factor", "1/2pi">>, <<"wavenumber_scale_factor", "1.0">> >>,
  LossParameters |-> << <<"alpha_pen1", "0.0">>, <<"alpha_pen2", "0.0">>, <<"beta_reg", "0.0">>, <<"gamma_coherence", "0.0">>, <<"auto_balance_losses", "False">>, <<"balance_freq", "10">> >>,
  NNParameters |-> << <<"nlayers", "2">>, <<"input_size", "3">>, <<"hidden_layer_size", "10">>, <<"hidden_layer_sizes", "[]">>, <<"activations", "[]">>, <<"output_size", "3">> >>,
  LowFreqParameters |-> << <<"L_2D", "15000.0">>, <<"sigma2", "0.6">>, <<"z_i", "500.0">>, <<"psi_degs", "43.0">>, <<"c", "None">> >>,
  IntegrationParameters |-> << <<"ops_log_min", "-3.0">>, <<"ops_log_max", "3.0">>, <<"ops_num_points", "100">>, <<"coh_log_min", "-3.0">>, <<"coh_log_max", "3.0">>, <<"coh_num_points", "100">> >> ]
Fractions == {<<"17/6", 17, 6>>, <<"-2/3", -2, 3>>, <<"-5/3", -5, 3>>, <<"17/3", 17, 3>>}
Words == {"True", "False", "None", "[]", "TAUNET"}
==============================================================================
