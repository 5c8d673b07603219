app!(ee_in_1, [E0 "p19976" u8 u16, E1 "q0" u8 u16], [], []);
app!(ei_1, [E0 "p19465" u8 u16], [I1 "q0" u32], []);
app!(ii_1, [], [I0 "p19984" u32, I1 "q0" u32], []);
app!(ee_out_1, [E0 "p19644" u8 u16, E1 "q0" u8 u16], [], []);
app!(eo_1, [E0 "p19978" u8 u16], [], [O1 "q0" u64]);
app!(oo_1, [], [], [O0 "p19973" u64, O1 "q0" u64]);
app!(x_e_1, [E0 "x166" u8 u16], [], []);
app!(x_o_1, [], [], [O0 "x226" u64]);
app!(s_e_1, [E0 "x4" u8 u16], [], []);
app!(ee_in_2, [E0 "p8459" u8 u16, E1 "q12" u8 u16], [], []);
app!(ei_2, [E0 "p19389" u8 u16], [I1 "q4" u32], []);
app!(ii_2, [], [I0 "p9339" u32, I1 "q0" u32], []);
app!(ee_out_2, [E0 "p3698" u8 u16, E1 "q7" u8 u16], [], []);
app!(eo_2, [E0 "p13363" u8 u16], [], [O1 "q3" u64]);
app!(oo_2, [], [], [O0 "p1530" u64, O1 "q0" u64]);
app!(x_e_2, [E0 "x163753" u8 u16], [], []);
app!(x_o_2, [], [], [O0 "x6144" u64]);
app!(s_e_2, [E0 "x67773" u8 u16], [], []);
app!(ee_in_4, [E0 "p207884" u8 u16, E1 "q19924" u8 u16], [], []);
app!(ei_4, [E0 "p268517" u8 u16], [I1 "q11736" u32], []);
app!(ii_4, [], [I0 "p133849" u32, I1 "q15194" u32], []);
app!(ee_out_4, [E0 "p259447" u8 u16, E1 "q39332" u8 u16], [], []);
app!(eo_4, [E0 "p251777" u8 u16], [], [O1 "q11858" u64]);
app!(oo_4, [], [], [O0 "p150621" u64, O1 "q465" u64]);
app!(plain, [E0 "plain" u8 u16], [I0 "plain" u32], [O0 "plain" u64]);
app!(std_in0_e_1, [E0 "s71" u8 u16], [], []);
app!(std_in0_t_1, [], [I0 "s202" u32], []);
app!(std_in1_e_1, [E0 "s144" u8 u16], [], []);
app!(std_in1_t_1, [], [I0 "s88" u32], []);
app!(std_out0_e_1, [E0 "s163" u8 u16], [], []);
app!(std_out0_t_1, [], [], [O0 "s102" u64]);
app!(std_out1_e_1, [E0 "s86" u8 u16], [], []);
app!(std_out1_t_1, [], [], [O0 "s15" u64]);
app!(std_out2_e_1, [E0 "s398" u8 u16], [], []);
app!(std_out2_t_1, [], [], [O0 "s63" u64]);
app!(std_out3_e_1, [E0 "s314" u8 u16], [], []);
app!(std_out3_t_1, [], [], [O0 "s0" u64]);
app!(std_out4_e_1, [E0 "s91" u8 u16], [], []);
app!(std_out4_t_1, [], [], [O0 "s57" u64]);
app!(std_in0_e_2, [E0 "s23178" u8 u16], [], []);
app!(std_in0_t_2, [], [I0 "s239968" u32], []);
app!(std_in1_e_2, [E0 "s65738" u8 u16], [], []);
app!(std_in1_t_2, [], [I0 "s43743" u32], []);
app!(std_out0_e_2, [E0 "s24039" u8 u16], [], []);
app!(std_out0_t_2, [], [], [O0 "s224999" u64]);
app!(std_out1_e_2, [E0 "s80877" u8 u16], [], []);
app!(std_out1_t_2, [], [], [O0 "s94727" u64]);
app!(std_out2_e_2, [E0 "s503432" u8 u16], [], []);
app!(std_out2_t_2, [], [], [O0 "s111052" u64]);
app!(std_out3_e_2, [E0 "s55059" u8 u16], [], []);
app!(std_out3_t_2, [], [], [O0 "s34831" u64]);
app!(std_out4_e_2, [E0 "s24488" u8 u16], [], []);
app!(std_out4_t_2, [], [], [O0 "s173576" u64]);
pub fn reports() -> Vec<(&'static str, VarKeyKind, VarKeyKind, usize)> { vec![ee_in_1::report(), ei_1::report(), ii_1::report(), ee_out_1::report(), eo_1::report(), oo_1::report(), x_e_1::report(), x_o_1::report(), s_e_1::report(), ee_in_2::report(), ei_2::report(), ii_2::report(), ee_out_2::report(), eo_2::report(), oo_2::report(), x_e_2::report(), x_o_2::report(), s_e_2::report(), ee_in_4::report(), ei_4::report(), ii_4::report(), ee_out_4::report(), eo_4::report(), oo_4::report(), plain::report(), std_in0_e_1::report(), std_in0_t_1::report(), std_in1_e_1::report(), std_in1_t_1::report(), std_out0_e_1::report(), std_out0_t_1::report(), std_out1_e_1::report(), std_out1_t_1::report(), std_out2_e_1::report(), std_out2_t_1::report(), std_out3_e_1::report(), std_out3_t_1::report(), std_out4_e_1::report(), std_out4_t_1::report(), std_in0_e_2::report(), std_in0_t_2::report(), std_in1_e_2::report(), std_in1_t_2::report(), std_out0_e_2::report(), std_out0_t_2::report(), std_out1_e_2::report(), std_out1_t_2::report(), std_out2_e_2::report(), std_out2_t_2::report(), std_out3_e_2::report(), std_out3_t_2::report(), std_out4_e_2::report(), std_out4_t_2::report()] }
