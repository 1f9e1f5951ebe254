// Generated by bin/gencorpus.py.
use super::*;
pub static T0: &[Row<dyn core::fmt::Display>] = &[
    row!(Display, "{:}", "{:}", DEF),
    row!(Display, "{:.3}", "{:.3}", DEF),
    row!(Display, "{:11}", "{:11}", DEF),
    row!(Display, "{:12.4(faint,fg=white,)}", "{:12.4}", St { f: 7, b: 16, i: 2 }),
    row!(Display, "{:0}", "{:0}", DEF),
    row!(Display, "{:0.1(bg=brightgreen,bold)}", "{:0.1}", St { f: 16, b: 10, i: 1 }),
    row!(Display, "{:011}", "{:011}", DEF),
    row!(Display, "{:09.5}", "{:09.5}", DEF),
    row!(Display, "{:#}", "{:#}", DEF),
    row!(Display, "{:#.4}", "{:#.4}", DEF),
    row!(Display, "{:#1}", "{:#1}", DEF),
    row!(Display, "{:#11.0(fg=red)}", "{:#11.0}", St { f: 1, b: 16, i: 0 }),
    row!(Display, "{:#0}", "{:#0}", DEF),
    row!(Display, "{:#0.4(fg=red)}", "{:#0.4}", St { f: 1, b: 16, i: 0 }),
    row!(Display, "{:#09(bg=brightgreen,bold)}", "{:#09}", St { f: 16, b: 10, i: 1 }),
    row!(Display, "{:#09.5}", "{:#09.5}", DEF),
    row!(Display, "{:+}", "{:+}", DEF),
    row!(Display, "{:+.2}", "{:+.2}", DEF),
    row!(Display, "{:+10}", "{:+10}", DEF),
    row!(Display, "{:+11.0}", "{:+11.0}", DEF),
    row!(Display, "{:+0}", "{:+0}", DEF),
    row!(Display, "{:+0.3}", "{:+0.3}", DEF),
    row!(Display, "{:+012}", "{:+012}", DEF),
    row!(Display, "{:+01.3(fg=red)}", "{:+01.3}", St { f: 1, b: 16, i: 0 }),
    row!(Display, "{:+#(faint,fg=white,)}", "{:+#}", St { f: 7, b: 16, i: 2 }),
    row!(Display, "{:+#.4}", "{:+#.4}", DEF),
    row!(Display, "{:+#12}", "{:+#12}", DEF),
    row!(Display, "{:+#6.2}", "{:+#6.2}", DEF),
    row!(Display, "{:+#0(faint,fg=white,)}", "{:+#0}", St { f: 7, b: 16, i: 2 }),
    row!(Display, "{:+#0.0}", "{:+#0.0}", DEF),
    row!(Display, "{:+#01}", "{:+#01}", DEF),
    row!(Display, "{:+#03.5(faint,fg=white,)}", "{:+#03.5}", St { f: 7, b: 16, i: 2 }),
    row!(Display, "{:-}", "{:-}", DEF),
    row!(Display, "{:-.1}", "{:-.1}", DEF),
    row!(Display, "{:-3}", "{:-3}", DEF),
    row!(Display, "{:-8.0}", "{:-8.0}", DEF),
    row!(Display, "{:-0(fg=red)}", "{:-0}", St { f: 1, b: 16, i: 0 }),
    row!(Display, "{:-0.0(bg=brightgreen,bold)}", "{:-0.0}", St { f: 16, b: 10, i: 1 }),
    row!(Display, "{:-011(faint,fg=white,)}", "{:-011}", St { f: 7, b: 16, i: 2 }),
    row!(Display, "{:-02.0}", "{:-02.0}", DEF),
    row!(Display, "{:-#}", "{:-#}", DEF),
    row!(Display, "{:-#.0(bg=brightgreen,bold)}", "{:-#.0}", St { f: 16, b: 10, i: 1 }),
    row!(Display, "{:-#7}", "{:-#7}", DEF),
    row!(Display, "{:-#8.0}", "{:-#8.0}", DEF),
    row!(Display, "{:-#0(fg=red)}", "{:-#0}", St { f: 1, b: 16, i: 0 }),
    row!(Display, "{:-#0.1}", "{:-#0.1}", DEF),
    row!(Display, "{:-#07(bg=brightgreen,bold)}", "{:-#07}", St { f: 16, b: 10, i: 1 }),
    row!(Display, "{:-#03.4}", "{:-#03.4}", DEF),
    row!(Display, "{:<}", "{:<}", DEF),
    row!(Display, "{: <.1}", "{: <.1}", DEF),
    row!(Display, "{:<5(fg=red)}", "{:<5}", St { f: 1, b: 16, i: 0 }),
    row!(Display, "{: <12.4}", "{: <12.4}", DEF),
    row!(Display, "{:<0(faint,fg=white,)}", "{:<0}", St { f: 7, b: 16, i: 2 }),
    row!(Display, "{:<0.0}", "{:<0.0}", DEF),
    row!(Display, "{: <08(bg=brightgreen,bold)}", "{: <08}", St { f: 16, b: 10, i: 1 }),
    row!(Display, "{: <03.5(faint,fg=white,)}", "{: <03.5}", St { f: 7, b: 16, i: 2 }),
    row!(Display, "{: <#}", "{: <#}", DEF),
    row!(Display, "{:<#.4}", "{:<#.4}", DEF),
    row!(Display, "{: <#5}", "{: <#5}", DEF),
    row!(Display, "{: <#8.3}", "{: <#8.3}", DEF),
    row!(Display, "{: <#0}", "{: <#0}", DEF),
    row!(Display, "{: <#0.1(fg=red)}", "{: <#0.1}", St { f: 1, b: 16, i: 0 }),
    row!(Display, "{:<#012}", "{:<#012}", DEF),
    row!(Display, "{:<#03.4}", "{:<#03.4}", DEF),
    row!(Display, "{:<+}", "{:<+}", DEF),
    row!(Display, "{:<+.0(bg=brightgreen,bold)}", "{:<+.0}", St { f: 16, b: 10, i: 1 }),
    row!(Display, "{: <+2}", "{: <+2}", DEF),
    row!(Display, "{:<+2.0}", "{:<+2.0}", DEF),
    row!(Display, "{:<+0}", "{:<+0}", DEF),
    row!(Display, "{:<+0.2(fg=red)}", "{:<+0.2}", St { f: 1, b: 16, i: 0 }),
    row!(Display, "{:<+08(faint,fg=white,)}", "{:<+08}", St { f: 7, b: 16, i: 2 }),
    row!(Display, "{: <+09.4}", "{: <+09.4}", DEF),
    row!(Display, "{:<+#(faint,fg=white,)}", "{:<+#}", St { f: 7, b: 16, i: 2 }),
    row!(Display, "{: <+#.5}", "{: <+#.5}", DEF),
    row!(Display, "{:<+#7(bg=brightgreen,bold)}", "{:<+#7}", St { f: 16, b: 10, i: 1 }),
    row!(Display, "{:<+#10.0(faint,fg=white,)}", "{:<+#10.0}", St { f: 7, b: 16, i: 2 }),
    row!(Display, "{:<+#0}", "{:<+#0}", DEF),
    row!(Display, "{:<+#0.1}", "{:<+#0.1}", DEF),
    row!(Display, "{: <+#011}", "{: <+#011}", DEF),
    row!(Display, "{:<+#01.2}", "{:<+#01.2}", DEF),
    row!(Display, "{:<-(fg=red)}", "{:<-}", St { f: 1, b: 16, i: 0 }),
    row!(Display, "{:<-.3}", "{:<-.3}", DEF),
    row!(Display, "{: <-8}", "{: <-8}", DEF),
    row!(Display, "{: <-8.1}", "{: <-8.1}", DEF),
    row!(Display, "{:<-0}", "{:<-0}", DEF),
    row!(Display, "{:<-0.1}", "{:<-0.1}", DEF),
    row!(Display, "{:<-01(bg=brightgreen,bold)}", "{:<-01}", St { f: 16, b: 10, i: 1 }),
    row!(Display, "{:<-06.1}", "{:<-06.1}", DEF),
    row!(Display, "{: <-#(faint,fg=white,)}", "{: <-#}", St { f: 7, b: 16, i: 2 }),
    row!(Display, "{:<-#.4(faint,fg=white,)}", "{:<-#.4}", St { f: 7, b: 16, i: 2 }),
    row!(Display, "{:<-#11}", "{:<-#11}", DEF),
    row!(Display, "{: <-#1.2}", "{: <-#1.2}", DEF),
    row!(Display, "{: <-#0}", "{: <-#0}", DEF),
    row!(Display, "{:<-#0.2}", "{:<-#0.2}", DEF),
    row!(Display, "{:<-#012}", "{:<-#012}", DEF),
    row!(Display, "{: <-#06.1(faint,fg=white,)}", "{: <-#06.1}", St { f: 7, b: 16, i: 2 }),
    row!(Display, "{:^}", "{:^}", DEF),
    row!(Display, "{: ^.0}", "{: ^.0}", DEF),
    row!(Display, "{:^7}", "{:^7}", DEF),
    row!(Display, "{:^5.3}", "{:^5.3}", DEF),
    row!(Display, "{:^0}", "{:^0}", DEF),
    row!(Display, "{: ^0.1}", "{: ^0.1}", DEF),
    row!(Display, "{:^010(bg=brightgreen,bold)}", "{:^010}", St { f: 16, b: 10, i: 1 }),
    row!(Display, "{:^03.3}", "{:^03.3}", DEF),
    row!(Display, "{:^#}", "{:^#}", DEF),
    row!(Display, "{:^#.5(faint,fg=white,)}", "{:^#.5}", St { f: 7, b: 16, i: 2 }),
    row!(Display, "{:^#12(faint,fg=white,)}", "{:^#12}", St { f: 7, b: 16, i: 2 }),
    row!(Display, "{: ^#10.4}", "{: ^#10.4}", DEF),
    row!(Display, "{:^#0}", "{:^#0}", DEF),
    row!(Display, "{:^#0.2}", "{:^#0.2}", DEF),
    row!(Display, "{: ^#012}", "{: ^#012}", DEF),
    row!(Display, "{: ^#05.3}", "{: ^#05.3}", DEF),
    row!(Display, "{:^+}", "{:^+}", DEF),
    row!(Display, "{:^+.2}", "{:^+.2}", DEF),
    row!(Display, "{:^+2}", "{:^+2}", DEF),
    row!(Display, "{:^+6.3(bg=brightgreen,bold)}", "{:^+6.3}", St { f: 16, b: 10, i: 1 }),
    row!(Display, "{: ^+0}", "{: ^+0}", DEF),
    row!(Display, "{:^+0.0}", "{:^+0.0}", DEF),
    row!(Display, "{:^+03(bg=brightgreen,bold)}", "{:^+03}", St { f: 16, b: 10, i: 1 }),
    row!(Display, "{:^+010.5}", "{:^+010.5}", DEF),
    row!(Display, "{:^+#}", "{:^+#}", DEF),
    row!(Display, "{:^+#.0}", "{:^+#.0}", DEF),
    row!(Display, "{:^+#10}", "{:^+#10}", DEF),
    row!(Display, "{:^+#10.2(fg=red)}", "{:^+#10.2}", St { f: 1, b: 16, i: 0 }),
    row!(Display, "{:^+#0(faint,fg=white,)}", "{:^+#0}", St { f: 7, b: 16, i: 2 }),
    row!(Display, "{:^+#0.2}", "{:^+#0.2}", DEF),
    row!(Display, "{:^+#010}", "{:^+#010}", DEF),
    row!(Display, "{: ^+#010.0(faint,fg=white,)}", "{: ^+#010.0}", St { f: 7, b: 16, i: 2 }),
    row!(Display, "{:^-}", "{:^-}", DEF),
    row!(Display, "{:^-.3}", "{:^-.3}", DEF),
    row!(Display, "{:^-2}", "{:^-2}", DEF),
    row!(Display, "{:^-2.4}", "{:^-2.4}", DEF),
    row!(Display, "{:^-0}", "{:^-0}", DEF),
    row!(Display, "{:^-0.1}", "{:^-0.1}", DEF),
    row!(Display, "{: ^-08}", "{: ^-08}", DEF),
    row!(Display, "{:^-09.4}", "{:^-09.4}", DEF),
    row!(Display, "{:^-#(fg=red)}", "{:^-#}", St { f: 1, b: 16, i: 0 }),
    row!(Display, "{: ^-#.0(bg=brightgreen,bold)}", "{: ^-#.0}", St { f: 16, b: 10, i: 1 }),
    row!(Display, "{: ^-#12(fg=red)}", "{: ^-#12}", St { f: 1, b: 16, i: 0 }),
    row!(Display, "{: ^-#9.0(bg=brightgreen,bold)}", "{: ^-#9.0}", St { f: 16, b: 10, i: 1 }),
    row!(Display, "{:^-#0}", "{:^-#0}", DEF),
    row!(Display, "{:^-#0.5}", "{:^-#0.5}", DEF),
    row!(Display, "{: ^-#012(faint,fg=white,)}", "{: ^-#012}", St { f: 7, b: 16, i: 2 }),
    row!(Display, "{:^-#03.4}", "{:^-#03.4}", DEF),
    row!(Display, "{:>(fg=red)}", "{:>}", St { f: 1, b: 16, i: 0 }),
    row!(Display, "{:>.1}", "{:>.1}", DEF),
    row!(Display, "{:>7(bg=brightgreen,bold)}", "{:>7}", St { f: 16, b: 10, i: 1 }),
    row!(Display, "{:>5.1}", "{:>5.1}", DEF),
    row!(Display, "{: >0}", "{: >0}", DEF),
    row!(Display, "{: >0.0(fg=red)}", "{: >0.0}", St { f: 1, b: 16, i: 0 }),
    row!(Display, "{:>08}", "{:>08}", DEF),
    row!(Display, "{:>05.3}", "{:>05.3}", DEF),
    row!(Display, "{:>#}", "{:>#}", DEF),
    row!(Display, "{:>#.2(bg=brightgreen,bold)}", "{:>#.2}", St { f: 16, b: 10, i: 1 }),
    row!(Display, "{:>#12(bg=brightgreen,bold)}", "{:>#12}", St { f: 16, b: 10, i: 1 }),
    row!(Display, "{:>#9.0}", "{:>#9.0}", DEF),
    row!(Display, "{: >#0(faint,fg=white,)}", "{: >#0}", St { f: 7, b: 16, i: 2 }),
    row!(Display, "{: >#0.1(fg=red)}", "{: >#0.1}", St { f: 1, b: 16, i: 0 }),
    row!(Display, "{:>#02}", "{:>#02}", DEF),
    row!(Display, "{: >#012.3}", "{: >#012.3}", DEF),
    row!(Display, "{:>+}", "{:>+}", DEF),
    row!(Display, "{:>+.3}", "{:>+.3}", DEF),
    row!(Display, "{: >+1(bg=brightgreen,bold)}", "{: >+1}", St { f: 16, b: 10, i: 1 }),
    row!(Display, "{: >+9.2}", "{: >+9.2}", DEF),
    row!(Display, "{:>+0}", "{:>+0}", DEF),
    row!(Display, "{: >+0.0(fg=red)}", "{: >+0.0}", St { f: 1, b: 16, i: 0 }),
    row!(Display, "{:>+012}", "{:>+012}", DEF),
    row!(Display, "{:>+05.4}", "{:>+05.4}", DEF),
    row!(Display, "{:>+#}", "{:>+#}", DEF),
    row!(Display, "{: >+#.0}", "{: >+#.0}", DEF),
    row!(Display, "{:>+#8}", "{:>+#8}", DEF),
    row!(Display, "{:>+#7.3(bg=brightgreen,bold)}", "{:>+#7.3}", St { f: 16, b: 10, i: 1 }),
    row!(Display, "{:>+#0}", "{:>+#0}", DEF),
    row!(Display, "{: >+#0.2}", "{: >+#0.2}", DEF),
    row!(Display, "{: >+#07}", "{: >+#07}", DEF),
    row!(Display, "{:>+#01.1}", "{:>+#01.1}", DEF),
    row!(Display, "{:>-(bg=brightgreen,bold)}", "{:>-}", St { f: 16, b: 10, i: 1 }),
    row!(Display, "{:>-.4}", "{:>-.4}", DEF),
    row!(Display, "{:>-2(faint,fg=white,)}", "{:>-2}", St { f: 7, b: 16, i: 2 }),
    row!(Display, "{:>-1.0}", "{:>-1.0}", DEF),
    row!(Display, "{:>-0}", "{:>-0}", DEF),
    row!(Display, "{:>-0.1(faint,fg=white,)}", "{:>-0.1}", St { f: 7, b: 16, i: 2 }),
    row!(Display, "{: >-06}", "{: >-06}", DEF),
    row!(Display, "{:>-010.3(bg=brightgreen,bold)}", "{:>-010.3}", St { f: 16, b: 10, i: 1 }),
    row!(Display, "{:>-#}", "{:>-#}", DEF),
    row!(Display, "{:>-#.5}", "{:>-#.5}", DEF),
    row!(Display, "{:>-#3}", "{:>-#3}", DEF),
    row!(Display, "{:>-#10.4(fg=red)}", "{:>-#10.4}", St { f: 1, b: 16, i: 0 }),
    row!(Display, "{:>-#0}", "{:>-#0}", DEF),
    row!(Display, "{: >-#0.3}", "{: >-#0.3}", DEF),
    row!(Display, "{:>-#06}", "{:>-#06}", DEF),
    row!(Display, "{: >-#06.5}", "{: >-#06.5}", DEF),
];
pub static T1: &[Row<dyn core::fmt::Debug>] = &[
    row!(Debug, "{:?}", "{:?}", DEF),
    row!(Debug, "{:.1?}", "{:.1?}", DEF),
    row!(Debug, "{:12?}", "{:12?}", DEF),
    row!(Debug, "{:1.2(faint,fg=white,)?}", "{:1.2?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:0?}", "{:0?}", DEF),
    row!(Debug, "{:0.0(bg=brightgreen,bold)?}", "{:0.0?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:05?}", "{:05?}", DEF),
    row!(Debug, "{:09.2?}", "{:09.2?}", DEF),
    row!(Debug, "{:#?}", "{:#?}", DEF),
    row!(Debug, "{:#.5?}", "{:#.5?}", DEF),
    row!(Debug, "{:#3?}", "{:#3?}", DEF),
    row!(Debug, "{:#5.4?}", "{:#5.4?}", DEF),
    row!(Debug, "{:#0?}", "{:#0?}", DEF),
    row!(Debug, "{:#0.3(faint,fg=white,)?}", "{:#0.3?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:#07?}", "{:#07?}", DEF),
    row!(Debug, "{:#02.2?}", "{:#02.2?}", DEF),
    row!(Debug, "{:+?}", "{:+?}", DEF),
    row!(Debug, "{:+.3?}", "{:+.3?}", DEF),
    row!(Debug, "{:+12?}", "{:+12?}", DEF),
    row!(Debug, "{:+8.2?}", "{:+8.2?}", DEF),
    row!(Debug, "{:+0?}", "{:+0?}", DEF),
    row!(Debug, "{:+0.1?}", "{:+0.1?}", DEF),
    row!(Debug, "{:+03?}", "{:+03?}", DEF),
    row!(Debug, "{:+010.2?}", "{:+010.2?}", DEF),
    row!(Debug, "{:+#?}", "{:+#?}", DEF),
    row!(Debug, "{:+#.2?}", "{:+#.2?}", DEF),
    row!(Debug, "{:+#12(fg=red)?}", "{:+#12?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:+#5.1(fg=red)?}", "{:+#5.1?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:+#0?}", "{:+#0?}", DEF),
    row!(Debug, "{:+#0.1?}", "{:+#0.1?}", DEF),
    row!(Debug, "{:+#01?}", "{:+#01?}", DEF),
    row!(Debug, "{:+#01.2?}", "{:+#01.2?}", DEF),
    row!(Debug, "{:-?}", "{:-?}", DEF),
    row!(Debug, "{:-.0?}", "{:-.0?}", DEF),
    row!(Debug, "{:-2(bg=brightgreen,bold)?}", "{:-2?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:-12.1?}", "{:-12.1?}", DEF),
    row!(Debug, "{:-0?}", "{:-0?}", DEF),
    row!(Debug, "{:-0.2?}", "{:-0.2?}", DEF),
    row!(Debug, "{:-07?}", "{:-07?}", DEF),
    row!(Debug, "{:-09.5(bg=brightgreen,bold)?}", "{:-09.5?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:-#?}", "{:-#?}", DEF),
    row!(Debug, "{:-#.3?}", "{:-#.3?}", DEF),
    row!(Debug, "{:-#11?}", "{:-#11?}", DEF),
    row!(Debug, "{:-#5.3?}", "{:-#5.3?}", DEF),
    row!(Debug, "{:-#0?}", "{:-#0?}", DEF),
    row!(Debug, "{:-#0.2(fg=red)?}", "{:-#0.2?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:-#06(bg=brightgreen,bold)?}", "{:-#06?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:-#03.3?}", "{:-#03.3?}", DEF),
    row!(Debug, "{:<?}", "{:<?}", DEF),
    row!(Debug, "{:<.4?}", "{:<.4?}", DEF),
    row!(Debug, "{:<9(faint,fg=white,)?}", "{:<9?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{: <5.5?}", "{: <5.5?}", DEF),
    row!(Debug, "{:<0?}", "{:<0?}", DEF),
    row!(Debug, "{:<0.2?}", "{:<0.2?}", DEF),
    row!(Debug, "{: <012(fg=red)?}", "{: <012?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:<02.2?}", "{:<02.2?}", DEF),
    row!(Debug, "{:<#?}", "{:<#?}", DEF),
    row!(Debug, "{:<#.2?}", "{:<#.2?}", DEF),
    row!(Debug, "{:<#6?}", "{:<#6?}", DEF),
    row!(Debug, "{: <#10.1?}", "{: <#10.1?}", DEF),
    row!(Debug, "{: <#0(bg=brightgreen,bold)?}", "{: <#0?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:<#0.1?}", "{:<#0.1?}", DEF),
    row!(Debug, "{:<#08?}", "{:<#08?}", DEF),
    row!(Debug, "{:<#011.1?}", "{:<#011.1?}", DEF),
    row!(Debug, "{:<+(faint,fg=white,)?}", "{:<+?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{: <+.0?}", "{: <+.0?}", DEF),
    row!(Debug, "{:<+1?}", "{:<+1?}", DEF),
    row!(Debug, "{:<+2.4?}", "{:<+2.4?}", DEF),
    row!(Debug, "{:<+0?}", "{:<+0?}", DEF),
    row!(Debug, "{: <+0.0?}", "{: <+0.0?}", DEF),
    row!(Debug, "{: <+012?}", "{: <+012?}", DEF),
    row!(Debug, "{: <+012.3?}", "{: <+012.3?}", DEF),
    row!(Debug, "{:<+#(fg=red)?}", "{:<+#?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:<+#.3?}", "{:<+#.3?}", DEF),
    row!(Debug, "{:<+#7(bg=brightgreen,bold)?}", "{:<+#7?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:<+#10.5?}", "{:<+#10.5?}", DEF),
    row!(Debug, "{:<+#0?}", "{:<+#0?}", DEF),
    row!(Debug, "{:<+#0.0?}", "{:<+#0.0?}", DEF),
    row!(Debug, "{:<+#09?}", "{:<+#09?}", DEF),
    row!(Debug, "{:<+#010.2?}", "{:<+#010.2?}", DEF),
    row!(Debug, "{:<-?}", "{:<-?}", DEF),
    row!(Debug, "{:<-.1?}", "{:<-.1?}", DEF),
    row!(Debug, "{:<-8(fg=red)?}", "{:<-8?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:<-8.3?}", "{:<-8.3?}", DEF),
    row!(Debug, "{: <-0?}", "{: <-0?}", DEF),
    row!(Debug, "{:<-0.5?}", "{:<-0.5?}", DEF),
    row!(Debug, "{:<-03(fg=red)?}", "{:<-03?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:<-01.4?}", "{:<-01.4?}", DEF),
    row!(Debug, "{:<-#?}", "{:<-#?}", DEF),
    row!(Debug, "{: <-#.1(fg=red)?}", "{: <-#.1?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:<-#9?}", "{:<-#9?}", DEF),
    row!(Debug, "{: <-#3.2?}", "{: <-#3.2?}", DEF),
    row!(Debug, "{:<-#0?}", "{:<-#0?}", DEF),
    row!(Debug, "{:<-#0.4?}", "{:<-#0.4?}", DEF),
    row!(Debug, "{: <-#08?}", "{: <-#08?}", DEF),
    row!(Debug, "{:<-#010.0?}", "{:<-#010.0?}", DEF),
    row!(Debug, "{: ^?}", "{: ^?}", DEF),
    row!(Debug, "{:^.3(fg=red)?}", "{:^.3?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:^6?}", "{:^6?}", DEF),
    row!(Debug, "{: ^5.0?}", "{: ^5.0?}", DEF),
    row!(Debug, "{:^0?}", "{:^0?}", DEF),
    row!(Debug, "{: ^0.3?}", "{: ^0.3?}", DEF),
    row!(Debug, "{: ^03?}", "{: ^03?}", DEF),
    row!(Debug, "{: ^010.1?}", "{: ^010.1?}", DEF),
    row!(Debug, "{:^#?}", "{:^#?}", DEF),
    row!(Debug, "{: ^#.1?}", "{: ^#.1?}", DEF),
    row!(Debug, "{:^#2(fg=red)?}", "{:^#2?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:^#9.0?}", "{:^#9.0?}", DEF),
    row!(Debug, "{:^#0?}", "{:^#0?}", DEF),
    row!(Debug, "{:^#0.1?}", "{:^#0.1?}", DEF),
    row!(Debug, "{:^#02?}", "{:^#02?}", DEF),
    row!(Debug, "{:^#01.4?}", "{:^#01.4?}", DEF),
    row!(Debug, "{:^+?}", "{:^+?}", DEF),
    row!(Debug, "{:^+.2?}", "{:^+.2?}", DEF),
    row!(Debug, "{:^+9?}", "{:^+9?}", DEF),
    row!(Debug, "{: ^+2.5?}", "{: ^+2.5?}", DEF),
    row!(Debug, "{:^+0(faint,fg=white,)?}", "{:^+0?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:^+0.0?}", "{:^+0.0?}", DEF),
    row!(Debug, "{: ^+08?}", "{: ^+08?}", DEF),
    row!(Debug, "{:^+06.4?}", "{:^+06.4?}", DEF),
    row!(Debug, "{:^+#?}", "{:^+#?}", DEF),
    row!(Debug, "{:^+#.4?}", "{:^+#.4?}", DEF),
    row!(Debug, "{:^+#6(faint,fg=white,)?}", "{:^+#6?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:^+#10.5?}", "{:^+#10.5?}", DEF),
    row!(Debug, "{: ^+#0(fg=red)?}", "{: ^+#0?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:^+#0.2?}", "{:^+#0.2?}", DEF),
    row!(Debug, "{:^+#07?}", "{:^+#07?}", DEF),
    row!(Debug, "{:^+#02.1?}", "{:^+#02.1?}", DEF),
    row!(Debug, "{: ^-?}", "{: ^-?}", DEF),
    row!(Debug, "{: ^-.1?}", "{: ^-.1?}", DEF),
    row!(Debug, "{:^-11?}", "{:^-11?}", DEF),
    row!(Debug, "{: ^-1.1?}", "{: ^-1.1?}", DEF),
    row!(Debug, "{:^-0?}", "{:^-0?}", DEF),
    row!(Debug, "{:^-0.3?}", "{:^-0.3?}", DEF),
    row!(Debug, "{: ^-05?}", "{: ^-05?}", DEF),
    row!(Debug, "{:^-08.3?}", "{:^-08.3?}", DEF),
    row!(Debug, "{:^-#(faint,fg=white,)?}", "{:^-#?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:^-#.2?}", "{:^-#.2?}", DEF),
    row!(Debug, "{:^-#12?}", "{:^-#12?}", DEF),
    row!(Debug, "{:^-#6.2?}", "{:^-#6.2?}", DEF),
    row!(Debug, "{:^-#0(bg=brightgreen,bold)?}", "{:^-#0?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{: ^-#0.2(faint,fg=white,)?}", "{: ^-#0.2?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:^-#011?}", "{:^-#011?}", DEF),
    row!(Debug, "{: ^-#010.2?}", "{: ^-#010.2?}", DEF),
    row!(Debug, "{:>?}", "{:>?}", DEF),
    row!(Debug, "{: >.5?}", "{: >.5?}", DEF),
    row!(Debug, "{:>1(fg=red)?}", "{:>1?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{: >2.1?}", "{: >2.1?}", DEF),
    row!(Debug, "{:>0(faint,fg=white,)?}", "{:>0?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{: >0.0(bg=brightgreen,bold)?}", "{: >0.0?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:>05?}", "{:>05?}", DEF),
    row!(Debug, "{:>010.0?}", "{:>010.0?}", DEF),
    row!(Debug, "{: >#?}", "{: >#?}", DEF),
    row!(Debug, "{:>#.2?}", "{:>#.2?}", DEF),
    row!(Debug, "{: >#1?}", "{: >#1?}", DEF),
    row!(Debug, "{: >#11.2(bg=brightgreen,bold)?}", "{: >#11.2?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{: >#0?}", "{: >#0?}", DEF),
    row!(Debug, "{: >#0.0?}", "{: >#0.0?}", DEF),
    row!(Debug, "{:>#012?}", "{:>#012?}", DEF),
    row!(Debug, "{:>#012.0(faint,fg=white,)?}", "{:>#012.0?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:>+(faint,fg=white,)?}", "{:>+?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{: >+.3(faint,fg=white,)?}", "{: >+.3?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{: >+11(fg=red)?}", "{: >+11?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{: >+1.5?}", "{: >+1.5?}", DEF),
    row!(Debug, "{: >+0?}", "{: >+0?}", DEF),
    row!(Debug, "{:>+0.3?}", "{:>+0.3?}", DEF),
    row!(Debug, "{:>+09(faint,fg=white,)?}", "{:>+09?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:>+08.3?}", "{:>+08.3?}", DEF),
    row!(Debug, "{:>+#?}", "{:>+#?}", DEF),
    row!(Debug, "{:>+#.3?}", "{:>+#.3?}", DEF),
    row!(Debug, "{: >+#1?}", "{: >+#1?}", DEF),
    row!(Debug, "{:>+#11.2(faint,fg=white,)?}", "{:>+#11.2?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:>+#0?}", "{:>+#0?}", DEF),
    row!(Debug, "{: >+#0.0?}", "{: >+#0.0?}", DEF),
    row!(Debug, "{: >+#08?}", "{: >+#08?}", DEF),
    row!(Debug, "{:>+#02.4?}", "{:>+#02.4?}", DEF),
    row!(Debug, "{:>-?}", "{:>-?}", DEF),
    row!(Debug, "{:>-.0?}", "{:>-.0?}", DEF),
    row!(Debug, "{:>-12?}", "{:>-12?}", DEF),
    row!(Debug, "{:>-3.1(faint,fg=white,)?}", "{:>-3.1?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:>-0?}", "{:>-0?}", DEF),
    row!(Debug, "{: >-0.1?}", "{: >-0.1?}", DEF),
    row!(Debug, "{: >-05(faint,fg=white,)?}", "{: >-05?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{: >-03.0?}", "{: >-03.0?}", DEF),
    row!(Debug, "{:>-#?}", "{:>-#?}", DEF),
    row!(Debug, "{: >-#.5?}", "{: >-#.5?}", DEF),
    row!(Debug, "{: >-#1?}", "{: >-#1?}", DEF),
    row!(Debug, "{:>-#7.3?}", "{:>-#7.3?}", DEF),
    row!(Debug, "{:>-#0(faint,fg=white,)?}", "{:>-#0?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{: >-#0.2?}", "{: >-#0.2?}", DEF),
    row!(Debug, "{: >-#012?}", "{: >-#012?}", DEF),
    row!(Debug, "{:>-#05.4?}", "{:>-#05.4?}", DEF),
];
pub static T2: &[Row<dyn core::fmt::Debug>] = &[
    row!(Debug, "{:x?}", "{:x?}", DEF),
    row!(Debug, "{:.5x?}", "{:.5x?}", DEF),
    row!(Debug, "{:6(bg=brightgreen,bold)x?}", "{:6x?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:3.2x?}", "{:3.2x?}", DEF),
    row!(Debug, "{:0x?}", "{:0x?}", DEF),
    row!(Debug, "{:0.3x?}", "{:0.3x?}", DEF),
    row!(Debug, "{:03x?}", "{:03x?}", DEF),
    row!(Debug, "{:02.5(bg=brightgreen,bold)x?}", "{:02.5x?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:#x?}", "{:#x?}", DEF),
    row!(Debug, "{:#.4(fg=red)x?}", "{:#.4x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:#6x?}", "{:#6x?}", DEF),
    row!(Debug, "{:#11.4x?}", "{:#11.4x?}", DEF),
    row!(Debug, "{:#0(bg=brightgreen,bold)x?}", "{:#0x?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:#0.1x?}", "{:#0.1x?}", DEF),
    row!(Debug, "{:#06x?}", "{:#06x?}", DEF),
    row!(Debug, "{:#09.0x?}", "{:#09.0x?}", DEF),
    row!(Debug, "{:+x?}", "{:+x?}", DEF),
    row!(Debug, "{:+.4x?}", "{:+.4x?}", DEF),
    row!(Debug, "{:+1x?}", "{:+1x?}", DEF),
    row!(Debug, "{:+6.4x?}", "{:+6.4x?}", DEF),
    row!(Debug, "{:+0x?}", "{:+0x?}", DEF),
    row!(Debug, "{:+0.1(fg=red)x?}", "{:+0.1x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:+03x?}", "{:+03x?}", DEF),
    row!(Debug, "{:+03.0x?}", "{:+03.0x?}", DEF),
    row!(Debug, "{:+#x?}", "{:+#x?}", DEF),
    row!(Debug, "{:+#.4x?}", "{:+#.4x?}", DEF),
    row!(Debug, "{:+#1(faint,fg=white,)x?}", "{:+#1x?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:+#7.5(bg=brightgreen,bold)x?}", "{:+#7.5x?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:+#0x?}", "{:+#0x?}", DEF),
    row!(Debug, "{:+#0.4(bg=brightgreen,bold)x?}", "{:+#0.4x?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:+#012x?}", "{:+#012x?}", DEF),
    row!(Debug, "{:+#010.5x?}", "{:+#010.5x?}", DEF),
    row!(Debug, "{:-x?}", "{:-x?}", DEF),
    row!(Debug, "{:-.0(fg=red)x?}", "{:-.0x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:-5x?}", "{:-5x?}", DEF),
    row!(Debug, "{:-10.2x?}", "{:-10.2x?}", DEF),
    row!(Debug, "{:-0x?}", "{:-0x?}", DEF),
    row!(Debug, "{:-0.1x?}", "{:-0.1x?}", DEF),
    row!(Debug, "{:-011(fg=red)x?}", "{:-011x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:-06.0x?}", "{:-06.0x?}", DEF),
    row!(Debug, "{:-#x?}", "{:-#x?}", DEF),
    row!(Debug, "{:-#.1x?}", "{:-#.1x?}", DEF),
    row!(Debug, "{:-#11x?}", "{:-#11x?}", DEF),
    row!(Debug, "{:-#8.4x?}", "{:-#8.4x?}", DEF),
    row!(Debug, "{:-#0x?}", "{:-#0x?}", DEF),
    row!(Debug, "{:-#0.0x?}", "{:-#0.0x?}", DEF),
    row!(Debug, "{:-#011(fg=red)x?}", "{:-#011x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:-#011.5x?}", "{:-#011.5x?}", DEF),
    row!(Debug, "{: <(fg=red)x?}", "{: <x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:<.4x?}", "{:<.4x?}", DEF),
    row!(Debug, "{:<11x?}", "{:<11x?}", DEF),
    row!(Debug, "{:<10.1x?}", "{:<10.1x?}", DEF),
    row!(Debug, "{: <0(fg=red)x?}", "{: <0x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:<0.3x?}", "{:<0.3x?}", DEF),
    row!(Debug, "{:<05(faint,fg=white,)x?}", "{:<05x?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:<03.3x?}", "{:<03.3x?}", DEF),
    row!(Debug, "{:<#x?}", "{:<#x?}", DEF),
    row!(Debug, "{:<#.0(faint,fg=white,)x?}", "{:<#.0x?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:<#3(faint,fg=white,)x?}", "{:<#3x?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:<#2.0(bg=brightgreen,bold)x?}", "{:<#2.0x?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:<#0x?}", "{:<#0x?}", DEF),
    row!(Debug, "{:<#0.2x?}", "{:<#0.2x?}", DEF),
    row!(Debug, "{:<#02(fg=red)x?}", "{:<#02x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:<#07.4x?}", "{:<#07.4x?}", DEF),
    row!(Debug, "{:<+(fg=red)x?}", "{:<+x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{: <+.2x?}", "{: <+.2x?}", DEF),
    row!(Debug, "{:<+11x?}", "{:<+11x?}", DEF),
    row!(Debug, "{: <+8.1x?}", "{: <+8.1x?}", DEF),
    row!(Debug, "{: <+0x?}", "{: <+0x?}", DEF),
    row!(Debug, "{:<+0.1(fg=red)x?}", "{:<+0.1x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:<+011x?}", "{:<+011x?}", DEF),
    row!(Debug, "{:<+09.3x?}", "{:<+09.3x?}", DEF),
    row!(Debug, "{:<+#x?}", "{:<+#x?}", DEF),
    row!(Debug, "{: <+#.3x?}", "{: <+#.3x?}", DEF),
    row!(Debug, "{: <+#6x?}", "{: <+#6x?}", DEF),
    row!(Debug, "{:<+#10.1(bg=brightgreen,bold)x?}", "{:<+#10.1x?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:<+#0x?}", "{:<+#0x?}", DEF),
    row!(Debug, "{:<+#0.1x?}", "{:<+#0.1x?}", DEF),
    row!(Debug, "{: <+#07(bg=brightgreen,bold)x?}", "{: <+#07x?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:<+#02.0(fg=red)x?}", "{:<+#02.0x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:<-x?}", "{:<-x?}", DEF),
    row!(Debug, "{:<-.3x?}", "{:<-.3x?}", DEF),
    row!(Debug, "{:<-11x?}", "{:<-11x?}", DEF),
    row!(Debug, "{: <-10.4x?}", "{: <-10.4x?}", DEF),
    row!(Debug, "{:<-0(fg=red)x?}", "{:<-0x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:<-0.1x?}", "{:<-0.1x?}", DEF),
    row!(Debug, "{:<-07x?}", "{:<-07x?}", DEF),
    row!(Debug, "{:<-03.1x?}", "{:<-03.1x?}", DEF),
    row!(Debug, "{:<-#x?}", "{:<-#x?}", DEF),
    row!(Debug, "{: <-#.4x?}", "{: <-#.4x?}", DEF),
    row!(Debug, "{: <-#6x?}", "{: <-#6x?}", DEF),
    row!(Debug, "{: <-#1.5(fg=red)x?}", "{: <-#1.5x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:<-#0x?}", "{:<-#0x?}", DEF),
    row!(Debug, "{:<-#0.2x?}", "{:<-#0.2x?}", DEF),
    row!(Debug, "{: <-#05x?}", "{: <-#05x?}", DEF),
    row!(Debug, "{:<-#02.2x?}", "{:<-#02.2x?}", DEF),
    row!(Debug, "{: ^(bg=brightgreen,bold)x?}", "{: ^x?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:^.0x?}", "{:^.0x?}", DEF),
    row!(Debug, "{:^6x?}", "{:^6x?}", DEF),
    row!(Debug, "{: ^3.3x?}", "{: ^3.3x?}", DEF),
    row!(Debug, "{:^0(fg=red)x?}", "{:^0x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:^0.5x?}", "{:^0.5x?}", DEF),
    row!(Debug, "{:^09(faint,fg=white,)x?}", "{:^09x?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:^010.2x?}", "{:^010.2x?}", DEF),
    row!(Debug, "{: ^#x?}", "{: ^#x?}", DEF),
    row!(Debug, "{:^#.3(bg=brightgreen,bold)x?}", "{:^#.3x?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:^#11(faint,fg=white,)x?}", "{:^#11x?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:^#2.0(bg=brightgreen,bold)x?}", "{:^#2.0x?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:^#0(bg=brightgreen,bold)x?}", "{:^#0x?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{: ^#0.5x?}", "{: ^#0.5x?}", DEF),
    row!(Debug, "{:^#08x?}", "{:^#08x?}", DEF),
    row!(Debug, "{:^#07.0x?}", "{:^#07.0x?}", DEF),
    row!(Debug, "{:^+x?}", "{:^+x?}", DEF),
    row!(Debug, "{:^+.4x?}", "{:^+.4x?}", DEF),
    row!(Debug, "{:^+2x?}", "{:^+2x?}", DEF),
    row!(Debug, "{:^+8.3(faint,fg=white,)x?}", "{:^+8.3x?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:^+0(fg=red)x?}", "{:^+0x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:^+0.0(faint,fg=white,)x?}", "{:^+0.0x?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{: ^+06(fg=red)x?}", "{: ^+06x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{: ^+01.4x?}", "{: ^+01.4x?}", DEF),
    row!(Debug, "{: ^+#x?}", "{: ^+#x?}", DEF),
    row!(Debug, "{:^+#.4x?}", "{:^+#.4x?}", DEF),
    row!(Debug, "{: ^+#2(bg=brightgreen,bold)x?}", "{: ^+#2x?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:^+#5.5x?}", "{:^+#5.5x?}", DEF),
    row!(Debug, "{:^+#0(fg=red)x?}", "{:^+#0x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{: ^+#0.4x?}", "{: ^+#0.4x?}", DEF),
    row!(Debug, "{:^+#06x?}", "{:^+#06x?}", DEF),
    row!(Debug, "{:^+#012.4(bg=brightgreen,bold)x?}", "{:^+#012.4x?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:^-x?}", "{:^-x?}", DEF),
    row!(Debug, "{:^-.5(fg=red)x?}", "{:^-.5x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:^-2x?}", "{:^-2x?}", DEF),
    row!(Debug, "{:^-9.4x?}", "{:^-9.4x?}", DEF),
    row!(Debug, "{:^-0x?}", "{:^-0x?}", DEF),
    row!(Debug, "{:^-0.0(faint,fg=white,)x?}", "{:^-0.0x?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:^-08(faint,fg=white,)x?}", "{:^-08x?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:^-012.2(bg=brightgreen,bold)x?}", "{:^-012.2x?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:^-#(fg=red)x?}", "{:^-#x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:^-#.3x?}", "{:^-#.3x?}", DEF),
    row!(Debug, "{: ^-#6x?}", "{: ^-#6x?}", DEF),
    row!(Debug, "{: ^-#8.4x?}", "{: ^-#8.4x?}", DEF),
    row!(Debug, "{: ^-#0x?}", "{: ^-#0x?}", DEF),
    row!(Debug, "{:^-#0.5x?}", "{:^-#0.5x?}", DEF),
    row!(Debug, "{:^-#03x?}", "{:^-#03x?}", DEF),
    row!(Debug, "{:^-#012.5(bg=brightgreen,bold)x?}", "{:^-#012.5x?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{: >(fg=red)x?}", "{: >x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{: >.0x?}", "{: >.0x?}", DEF),
    row!(Debug, "{:>2(bg=brightgreen,bold)x?}", "{:>2x?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:>10.3x?}", "{:>10.3x?}", DEF),
    row!(Debug, "{:>0x?}", "{:>0x?}", DEF),
    row!(Debug, "{:>0.2x?}", "{:>0.2x?}", DEF),
    row!(Debug, "{:>011(faint,fg=white,)x?}", "{:>011x?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:>03.3(fg=red)x?}", "{:>03.3x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:>#x?}", "{:>#x?}", DEF),
    row!(Debug, "{:>#.3x?}", "{:>#.3x?}", DEF),
    row!(Debug, "{:>#6(bg=brightgreen,bold)x?}", "{:>#6x?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{: >#12.3x?}", "{: >#12.3x?}", DEF),
    row!(Debug, "{: >#0(fg=red)x?}", "{: >#0x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:>#0.1(bg=brightgreen,bold)x?}", "{:>#0.1x?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:>#01(bg=brightgreen,bold)x?}", "{:>#01x?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{: >#05.3(faint,fg=white,)x?}", "{: >#05.3x?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:>+x?}", "{:>+x?}", DEF),
    row!(Debug, "{:>+.0x?}", "{:>+.0x?}", DEF),
    row!(Debug, "{: >+6(bg=brightgreen,bold)x?}", "{: >+6x?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:>+9.4x?}", "{:>+9.4x?}", DEF),
    row!(Debug, "{:>+0x?}", "{:>+0x?}", DEF),
    row!(Debug, "{:>+0.4x?}", "{:>+0.4x?}", DEF),
    row!(Debug, "{: >+01x?}", "{: >+01x?}", DEF),
    row!(Debug, "{:>+010.3x?}", "{:>+010.3x?}", DEF),
    row!(Debug, "{: >+#(fg=red)x?}", "{: >+#x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:>+#.5(bg=brightgreen,bold)x?}", "{:>+#.5x?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:>+#10x?}", "{:>+#10x?}", DEF),
    row!(Debug, "{:>+#2.3x?}", "{:>+#2.3x?}", DEF),
    row!(Debug, "{:>+#0x?}", "{:>+#0x?}", DEF),
    row!(Debug, "{: >+#0.1x?}", "{: >+#0.1x?}", DEF),
    row!(Debug, "{:>+#010(faint,fg=white,)x?}", "{:>+#010x?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:>+#07.5x?}", "{:>+#07.5x?}", DEF),
    row!(Debug, "{:>-x?}", "{:>-x?}", DEF),
    row!(Debug, "{:>-.2(bg=brightgreen,bold)x?}", "{:>-.2x?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{: >-3(fg=red)x?}", "{: >-3x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:>-3.2x?}", "{:>-3.2x?}", DEF),
    row!(Debug, "{:>-0(fg=red)x?}", "{:>-0x?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{: >-0.4x?}", "{: >-0.4x?}", DEF),
    row!(Debug, "{:>-010x?}", "{:>-010x?}", DEF),
    row!(Debug, "{:>-01.1x?}", "{:>-01.1x?}", DEF),
    row!(Debug, "{:>-#x?}", "{:>-#x?}", DEF),
    row!(Debug, "{:>-#.1(faint,fg=white,)x?}", "{:>-#.1x?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:>-#3x?}", "{:>-#3x?}", DEF),
    row!(Debug, "{: >-#8.2x?}", "{: >-#8.2x?}", DEF),
    row!(Debug, "{:>-#0x?}", "{:>-#0x?}", DEF),
    row!(Debug, "{: >-#0.5x?}", "{: >-#0.5x?}", DEF),
    row!(Debug, "{:>-#012x?}", "{:>-#012x?}", DEF),
    row!(Debug, "{:>-#012.3(bg=brightgreen,bold)x?}", "{:>-#012.3x?}", St { f: 16, b: 10, i: 1 }),
];
pub static T3: &[Row<dyn core::fmt::Debug>] = &[
    row!(Debug, "{:X?}", "{:X?}", DEF),
    row!(Debug, "{:.0X?}", "{:.0X?}", DEF),
    row!(Debug, "{:8(faint,fg=white,)X?}", "{:8X?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:8.3X?}", "{:8.3X?}", DEF),
    row!(Debug, "{:0X?}", "{:0X?}", DEF),
    row!(Debug, "{:0.4X?}", "{:0.4X?}", DEF),
    row!(Debug, "{:010X?}", "{:010X?}", DEF),
    row!(Debug, "{:09.2X?}", "{:09.2X?}", DEF),
    row!(Debug, "{:#X?}", "{:#X?}", DEF),
    row!(Debug, "{:#.2X?}", "{:#.2X?}", DEF),
    row!(Debug, "{:#7(faint,fg=white,)X?}", "{:#7X?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:#11.2X?}", "{:#11.2X?}", DEF),
    row!(Debug, "{:#0(faint,fg=white,)X?}", "{:#0X?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:#0.3X?}", "{:#0.3X?}", DEF),
    row!(Debug, "{:#09(fg=red)X?}", "{:#09X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:#012.1(fg=red)X?}", "{:#012.1X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:+X?}", "{:+X?}", DEF),
    row!(Debug, "{:+.4X?}", "{:+.4X?}", DEF),
    row!(Debug, "{:+2(bg=brightgreen,bold)X?}", "{:+2X?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:+7.2X?}", "{:+7.2X?}", DEF),
    row!(Debug, "{:+0X?}", "{:+0X?}", DEF),
    row!(Debug, "{:+0.4(fg=red)X?}", "{:+0.4X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:+05(faint,fg=white,)X?}", "{:+05X?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:+012.1X?}", "{:+012.1X?}", DEF),
    row!(Debug, "{:+#(faint,fg=white,)X?}", "{:+#X?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:+#.3X?}", "{:+#.3X?}", DEF),
    row!(Debug, "{:+#2X?}", "{:+#2X?}", DEF),
    row!(Debug, "{:+#1.4X?}", "{:+#1.4X?}", DEF),
    row!(Debug, "{:+#0X?}", "{:+#0X?}", DEF),
    row!(Debug, "{:+#0.2(fg=red)X?}", "{:+#0.2X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:+#01(bg=brightgreen,bold)X?}", "{:+#01X?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:+#05.2X?}", "{:+#05.2X?}", DEF),
    row!(Debug, "{:-(fg=red)X?}", "{:-X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:-.0X?}", "{:-.0X?}", DEF),
    row!(Debug, "{:-11X?}", "{:-11X?}", DEF),
    row!(Debug, "{:-9.0X?}", "{:-9.0X?}", DEF),
    row!(Debug, "{:-0(fg=red)X?}", "{:-0X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:-0.2X?}", "{:-0.2X?}", DEF),
    row!(Debug, "{:-05X?}", "{:-05X?}", DEF),
    row!(Debug, "{:-08.3X?}", "{:-08.3X?}", DEF),
    row!(Debug, "{:-#(bg=brightgreen,bold)X?}", "{:-#X?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:-#.5X?}", "{:-#.5X?}", DEF),
    row!(Debug, "{:-#12X?}", "{:-#12X?}", DEF),
    row!(Debug, "{:-#5.1X?}", "{:-#5.1X?}", DEF),
    row!(Debug, "{:-#0X?}", "{:-#0X?}", DEF),
    row!(Debug, "{:-#0.0(faint,fg=white,)X?}", "{:-#0.0X?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:-#06X?}", "{:-#06X?}", DEF),
    row!(Debug, "{:-#011.4X?}", "{:-#011.4X?}", DEF),
    row!(Debug, "{: <(fg=red)X?}", "{: <X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:<.2(fg=red)X?}", "{:<.2X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:<5X?}", "{:<5X?}", DEF),
    row!(Debug, "{:<11.3(bg=brightgreen,bold)X?}", "{:<11.3X?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:<0(fg=red)X?}", "{:<0X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:<0.5X?}", "{:<0.5X?}", DEF),
    row!(Debug, "{:<02X?}", "{:<02X?}", DEF),
    row!(Debug, "{:<02.5(bg=brightgreen,bold)X?}", "{:<02.5X?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{: <#X?}", "{: <#X?}", DEF),
    row!(Debug, "{: <#.3X?}", "{: <#.3X?}", DEF),
    row!(Debug, "{:<#2X?}", "{:<#2X?}", DEF),
    row!(Debug, "{: <#9.5(bg=brightgreen,bold)X?}", "{: <#9.5X?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{: <#0X?}", "{: <#0X?}", DEF),
    row!(Debug, "{:<#0.1X?}", "{:<#0.1X?}", DEF),
    row!(Debug, "{: <#06(bg=brightgreen,bold)X?}", "{: <#06X?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:<#011.0(bg=brightgreen,bold)X?}", "{:<#011.0X?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{: <+X?}", "{: <+X?}", DEF),
    row!(Debug, "{: <+.2X?}", "{: <+.2X?}", DEF),
    row!(Debug, "{:<+12X?}", "{:<+12X?}", DEF),
    row!(Debug, "{:<+1.5X?}", "{:<+1.5X?}", DEF),
    row!(Debug, "{:<+0X?}", "{:<+0X?}", DEF),
    row!(Debug, "{:<+0.3(faint,fg=white,)X?}", "{:<+0.3X?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:<+05X?}", "{:<+05X?}", DEF),
    row!(Debug, "{:<+08.3X?}", "{:<+08.3X?}", DEF),
    row!(Debug, "{:<+#X?}", "{:<+#X?}", DEF),
    row!(Debug, "{:<+#.0X?}", "{:<+#.0X?}", DEF),
    row!(Debug, "{:<+#12X?}", "{:<+#12X?}", DEF),
    row!(Debug, "{:<+#11.1X?}", "{:<+#11.1X?}", DEF),
    row!(Debug, "{:<+#0X?}", "{:<+#0X?}", DEF),
    row!(Debug, "{: <+#0.0X?}", "{: <+#0.0X?}", DEF),
    row!(Debug, "{:<+#09(bg=brightgreen,bold)X?}", "{:<+#09X?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{: <+#09.1X?}", "{: <+#09.1X?}", DEF),
    row!(Debug, "{:<-(bg=brightgreen,bold)X?}", "{:<-X?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{: <-.2X?}", "{: <-.2X?}", DEF),
    row!(Debug, "{:<-2X?}", "{:<-2X?}", DEF),
    row!(Debug, "{: <-10.4X?}", "{: <-10.4X?}", DEF),
    row!(Debug, "{: <-0(fg=red)X?}", "{: <-0X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{: <-0.1(bg=brightgreen,bold)X?}", "{: <-0.1X?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:<-05(faint,fg=white,)X?}", "{:<-05X?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{: <-02.3X?}", "{: <-02.3X?}", DEF),
    row!(Debug, "{:<-#X?}", "{:<-#X?}", DEF),
    row!(Debug, "{: <-#.4X?}", "{: <-#.4X?}", DEF),
    row!(Debug, "{:<-#11X?}", "{:<-#11X?}", DEF),
    row!(Debug, "{:<-#2.3X?}", "{:<-#2.3X?}", DEF),
    row!(Debug, "{: <-#0X?}", "{: <-#0X?}", DEF),
    row!(Debug, "{: <-#0.5X?}", "{: <-#0.5X?}", DEF),
    row!(Debug, "{: <-#010X?}", "{: <-#010X?}", DEF),
    row!(Debug, "{:<-#09.2X?}", "{:<-#09.2X?}", DEF),
    row!(Debug, "{:^X?}", "{:^X?}", DEF),
    row!(Debug, "{:^.3X?}", "{:^.3X?}", DEF),
    row!(Debug, "{: ^6X?}", "{: ^6X?}", DEF),
    row!(Debug, "{:^8.2X?}", "{:^8.2X?}", DEF),
    row!(Debug, "{: ^0X?}", "{: ^0X?}", DEF),
    row!(Debug, "{:^0.1X?}", "{:^0.1X?}", DEF),
    row!(Debug, "{:^02X?}", "{:^02X?}", DEF),
    row!(Debug, "{: ^011.2(bg=brightgreen,bold)X?}", "{: ^011.2X?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:^#X?}", "{:^#X?}", DEF),
    row!(Debug, "{:^#.3X?}", "{:^#.3X?}", DEF),
    row!(Debug, "{: ^#10X?}", "{: ^#10X?}", DEF),
    row!(Debug, "{:^#8.1(faint,fg=white,)X?}", "{:^#8.1X?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:^#0X?}", "{:^#0X?}", DEF),
    row!(Debug, "{:^#0.1(bg=brightgreen,bold)X?}", "{:^#0.1X?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:^#01X?}", "{:^#01X?}", DEF),
    row!(Debug, "{: ^#011.2X?}", "{: ^#011.2X?}", DEF),
    row!(Debug, "{:^+X?}", "{:^+X?}", DEF),
    row!(Debug, "{:^+.2X?}", "{:^+.2X?}", DEF),
    row!(Debug, "{:^+9X?}", "{:^+9X?}", DEF),
    row!(Debug, "{: ^+2.1(bg=brightgreen,bold)X?}", "{: ^+2.1X?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:^+0(bg=brightgreen,bold)X?}", "{:^+0X?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:^+0.2X?}", "{:^+0.2X?}", DEF),
    row!(Debug, "{: ^+012X?}", "{: ^+012X?}", DEF),
    row!(Debug, "{:^+06.2(faint,fg=white,)X?}", "{:^+06.2X?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:^+#(fg=red)X?}", "{:^+#X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:^+#.0X?}", "{:^+#.0X?}", DEF),
    row!(Debug, "{:^+#8X?}", "{:^+#8X?}", DEF),
    row!(Debug, "{:^+#7.5X?}", "{:^+#7.5X?}", DEF),
    row!(Debug, "{:^+#0X?}", "{:^+#0X?}", DEF),
    row!(Debug, "{: ^+#0.4X?}", "{: ^+#0.4X?}", DEF),
    row!(Debug, "{:^+#012(faint,fg=white,)X?}", "{:^+#012X?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:^+#02.1X?}", "{:^+#02.1X?}", DEF),
    row!(Debug, "{:^-X?}", "{:^-X?}", DEF),
    row!(Debug, "{:^-.3X?}", "{:^-.3X?}", DEF),
    row!(Debug, "{:^-9X?}", "{:^-9X?}", DEF),
    row!(Debug, "{:^-7.5X?}", "{:^-7.5X?}", DEF),
    row!(Debug, "{:^-0X?}", "{:^-0X?}", DEF),
    row!(Debug, "{:^-0.5X?}", "{:^-0.5X?}", DEF),
    row!(Debug, "{:^-05X?}", "{:^-05X?}", DEF),
    row!(Debug, "{:^-02.1(bg=brightgreen,bold)X?}", "{:^-02.1X?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:^-#X?}", "{:^-#X?}", DEF),
    row!(Debug, "{:^-#.1(faint,fg=white,)X?}", "{:^-#.1X?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:^-#9X?}", "{:^-#9X?}", DEF),
    row!(Debug, "{:^-#10.3X?}", "{:^-#10.3X?}", DEF),
    row!(Debug, "{:^-#0(fg=red)X?}", "{:^-#0X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:^-#0.1X?}", "{:^-#0.1X?}", DEF),
    row!(Debug, "{:^-#010X?}", "{:^-#010X?}", DEF),
    row!(Debug, "{:^-#011.3X?}", "{:^-#011.3X?}", DEF),
    row!(Debug, "{:>(fg=red)X?}", "{:>X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:>.5X?}", "{:>.5X?}", DEF),
    row!(Debug, "{:>7X?}", "{:>7X?}", DEF),
    row!(Debug, "{:>6.0X?}", "{:>6.0X?}", DEF),
    row!(Debug, "{: >0X?}", "{: >0X?}", DEF),
    row!(Debug, "{:>0.4(fg=red)X?}", "{:>0.4X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:>010(fg=red)X?}", "{:>010X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:>05.1X?}", "{:>05.1X?}", DEF),
    row!(Debug, "{: >#X?}", "{: >#X?}", DEF),
    row!(Debug, "{: >#.5(fg=red)X?}", "{: >#.5X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:>#7(fg=red)X?}", "{:>#7X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:>#7.2X?}", "{:>#7.2X?}", DEF),
    row!(Debug, "{: >#0(fg=red)X?}", "{: >#0X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{: >#0.1(bg=brightgreen,bold)X?}", "{: >#0.1X?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{:>#07X?}", "{:>#07X?}", DEF),
    row!(Debug, "{:>#06.4X?}", "{:>#06.4X?}", DEF),
    row!(Debug, "{:>+X?}", "{:>+X?}", DEF),
    row!(Debug, "{:>+.1(fg=red)X?}", "{:>+.1X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{: >+6X?}", "{: >+6X?}", DEF),
    row!(Debug, "{: >+2.2(fg=red)X?}", "{: >+2.2X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:>+0(bg=brightgreen,bold)X?}", "{:>+0X?}", St { f: 16, b: 10, i: 1 }),
    row!(Debug, "{: >+0.4(faint,fg=white,)X?}", "{: >+0.4X?}", St { f: 7, b: 16, i: 2 }),
    row!(Debug, "{:>+010X?}", "{:>+010X?}", DEF),
    row!(Debug, "{: >+012.5X?}", "{: >+012.5X?}", DEF),
    row!(Debug, "{:>+#X?}", "{:>+#X?}", DEF),
    row!(Debug, "{:>+#.2X?}", "{:>+#.2X?}", DEF),
    row!(Debug, "{:>+#9X?}", "{:>+#9X?}", DEF),
    row!(Debug, "{:>+#5.5X?}", "{:>+#5.5X?}", DEF),
    row!(Debug, "{:>+#0X?}", "{:>+#0X?}", DEF),
    row!(Debug, "{: >+#0.4(fg=red)X?}", "{: >+#0.4X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:>+#01X?}", "{:>+#01X?}", DEF),
    row!(Debug, "{: >+#07.2X?}", "{: >+#07.2X?}", DEF),
    row!(Debug, "{: >-(fg=red)X?}", "{: >-X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{: >-.0X?}", "{: >-.0X?}", DEF),
    row!(Debug, "{: >-12X?}", "{: >-12X?}", DEF),
    row!(Debug, "{:>-10.4X?}", "{:>-10.4X?}", DEF),
    row!(Debug, "{: >-0(fg=red)X?}", "{: >-0X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:>-0.1X?}", "{:>-0.1X?}", DEF),
    row!(Debug, "{: >-03X?}", "{: >-03X?}", DEF),
    row!(Debug, "{: >-09.0X?}", "{: >-09.0X?}", DEF),
    row!(Debug, "{:>-#X?}", "{:>-#X?}", DEF),
    row!(Debug, "{: >-#.2X?}", "{: >-#.2X?}", DEF),
    row!(Debug, "{:>-#3(fg=red)X?}", "{:>-#3X?}", St { f: 1, b: 16, i: 0 }),
    row!(Debug, "{:>-#3.3X?}", "{:>-#3.3X?}", DEF),
    row!(Debug, "{: >-#0X?}", "{: >-#0X?}", DEF),
    row!(Debug, "{:>-#0.5X?}", "{:>-#0.5X?}", DEF),
    row!(Debug, "{:>-#07X?}", "{:>-#07X?}", DEF),
    row!(Debug, "{: >-#010.1X?}", "{: >-#010.1X?}", DEF),
];
pub static T4: &[Row<dyn core::fmt::Octal>] = &[
    row!(Octal, "{:o}", "{:o}", DEF),
    row!(Octal, "{:.2o}", "{:.2o}", DEF),
    row!(Octal, "{:1o}", "{:1o}", DEF),
    row!(Octal, "{:3.1o}", "{:3.1o}", DEF),
    row!(Octal, "{:0o}", "{:0o}", DEF),
    row!(Octal, "{:0.4o}", "{:0.4o}", DEF),
    row!(Octal, "{:012o}", "{:012o}", DEF),
    row!(Octal, "{:01.2o}", "{:01.2o}", DEF),
    row!(Octal, "{:#(fg=red)o}", "{:#o}", St { f: 1, b: 16, i: 0 }),
    row!(Octal, "{:#.1o}", "{:#.1o}", DEF),
    row!(Octal, "{:#7o}", "{:#7o}", DEF),
    row!(Octal, "{:#1.1(faint,fg=white,)o}", "{:#1.1o}", St { f: 7, b: 16, i: 2 }),
    row!(Octal, "{:#0(bg=brightgreen,bold)o}", "{:#0o}", St { f: 16, b: 10, i: 1 }),
    row!(Octal, "{:#0.2o}", "{:#0.2o}", DEF),
    row!(Octal, "{:#07o}", "{:#07o}", DEF),
    row!(Octal, "{:#05.3o}", "{:#05.3o}", DEF),
    row!(Octal, "{:+(fg=red)o}", "{:+o}", St { f: 1, b: 16, i: 0 }),
    row!(Octal, "{:+.3(faint,fg=white,)o}", "{:+.3o}", St { f: 7, b: 16, i: 2 }),
    row!(Octal, "{:+3(bg=brightgreen,bold)o}", "{:+3o}", St { f: 16, b: 10, i: 1 }),
    row!(Octal, "{:+11.4(bg=brightgreen,bold)o}", "{:+11.4o}", St { f: 16, b: 10, i: 1 }),
    row!(Octal, "{:+0o}", "{:+0o}", DEF),
    row!(Octal, "{:+0.0o}", "{:+0.0o}", DEF),
    row!(Octal, "{:+02(fg=red)o}", "{:+02o}", St { f: 1, b: 16, i: 0 }),
    row!(Octal, "{:+05.5(bg=brightgreen,bold)o}", "{:+05.5o}", St { f: 16, b: 10, i: 1 }),
    row!(Octal, "{:+#(fg=red)o}", "{:+#o}", St { f: 1, b: 16, i: 0 }),
    row!(Octal, "{:+#.0o}", "{:+#.0o}", DEF),
    row!(Octal, "{:+#10o}", "{:+#10o}", DEF),
    row!(Octal, "{:+#1.3(fg=red)o}", "{:+#1.3o}", St { f: 1, b: 16, i: 0 }),
    row!(Octal, "{:+#0o}", "{:+#0o}", DEF),
    row!(Octal, "{:+#0.0(bg=brightgreen,bold)o}", "{:+#0.0o}", St { f: 16, b: 10, i: 1 }),
    row!(Octal, "{:+#08o}", "{:+#08o}", DEF),
    row!(Octal, "{:+#08.5o}", "{:+#08.5o}", DEF),
    row!(Octal, "{:-o}", "{:-o}", DEF),
    row!(Octal, "{:-.3(fg=red)o}", "{:-.3o}", St { f: 1, b: 16, i: 0 }),
    row!(Octal, "{:-10o}", "{:-10o}", DEF),
    row!(Octal, "{:-2.3o}", "{:-2.3o}", DEF),
    row!(Octal, "{:-0o}", "{:-0o}", DEF),
    row!(Octal, "{:-0.0o}", "{:-0.0o}", DEF),
    row!(Octal, "{:-08o}", "{:-08o}", DEF),
    row!(Octal, "{:-08.1o}", "{:-08.1o}", DEF),
    row!(Octal, "{:-#(fg=red)o}", "{:-#o}", St { f: 1, b: 16, i: 0 }),
    row!(Octal, "{:-#.1(faint,fg=white,)o}", "{:-#.1o}", St { f: 7, b: 16, i: 2 }),
    row!(Octal, "{:-#7o}", "{:-#7o}", DEF),
    row!(Octal, "{:-#3.5(fg=red)o}", "{:-#3.5o}", St { f: 1, b: 16, i: 0 }),
    row!(Octal, "{:-#0o}", "{:-#0o}", DEF),
    row!(Octal, "{:-#0.5(fg=red)o}", "{:-#0.5o}", St { f: 1, b: 16, i: 0 }),
    row!(Octal, "{:-#012o}", "{:-#012o}", DEF),
    row!(Octal, "{:-#07.5o}", "{:-#07.5o}", DEF),
    row!(Octal, "{: <(bg=brightgreen,bold)o}", "{: <o}", St { f: 16, b: 10, i: 1 }),
    row!(Octal, "{:<.5o}", "{:<.5o}", DEF),
    row!(Octal, "{: <7o}", "{: <7o}", DEF),
    row!(Octal, "{: <10.4o}", "{: <10.4o}", DEF),
    row!(Octal, "{:<0o}", "{:<0o}", DEF),
    row!(Octal, "{: <0.0o}", "{: <0.0o}", DEF),
    row!(Octal, "{: <06(fg=red)o}", "{: <06o}", St { f: 1, b: 16, i: 0 }),
    row!(Octal, "{:<012.4o}", "{:<012.4o}", DEF),
    row!(Octal, "{:<#(bg=brightgreen,bold)o}", "{:<#o}", St { f: 16, b: 10, i: 1 }),
    row!(Octal, "{:<#.4(faint,fg=white,)o}", "{:<#.4o}", St { f: 7, b: 16, i: 2 }),
    row!(Octal, "{:<#9o}", "{:<#9o}", DEF),
    row!(Octal, "{: <#9.5o}", "{: <#9.5o}", DEF),
    row!(Octal, "{:<#0(faint,fg=white,)o}", "{:<#0o}", St { f: 7, b: 16, i: 2 }),
    row!(Octal, "{: <#0.5o}", "{: <#0.5o}", DEF),
    row!(Octal, "{:<#01o}", "{:<#01o}", DEF),
    row!(Octal, "{:<#02.3(faint,fg=white,)o}", "{:<#02.3o}", St { f: 7, b: 16, i: 2 }),
    row!(Octal, "{: <+(bg=brightgreen,bold)o}", "{: <+o}", St { f: 16, b: 10, i: 1 }),
    row!(Octal, "{:<+.4o}", "{:<+.4o}", DEF),
    row!(Octal, "{:<+6o}", "{:<+6o}", DEF),
    row!(Octal, "{:<+7.1o}", "{:<+7.1o}", DEF),
    row!(Octal, "{:<+0o}", "{:<+0o}", DEF),
    row!(Octal, "{:<+0.3o}", "{:<+0.3o}", DEF),
    row!(Octal, "{: <+011(faint,fg=white,)o}", "{: <+011o}", St { f: 7, b: 16, i: 2 }),
    row!(Octal, "{:<+03.3o}", "{:<+03.3o}", DEF),
    row!(Octal, "{:<+#o}", "{:<+#o}", DEF),
    row!(Octal, "{:<+#.2(fg=red)o}", "{:<+#.2o}", St { f: 1, b: 16, i: 0 }),
    row!(Octal, "{: <+#7(faint,fg=white,)o}", "{: <+#7o}", St { f: 7, b: 16, i: 2 }),
    row!(Octal, "{:<+#1.2o}", "{:<+#1.2o}", DEF),
    row!(Octal, "{: <+#0o}", "{: <+#0o}", DEF),
    row!(Octal, "{:<+#0.5o}", "{:<+#0.5o}", DEF),
    row!(Octal, "{:<+#08o}", "{:<+#08o}", DEF),
    row!(Octal, "{: <+#07.3(faint,fg=white,)o}", "{: <+#07.3o}", St { f: 7, b: 16, i: 2 }),
    row!(Octal, "{: <-o}", "{: <-o}", DEF),
    row!(Octal, "{: <-.3o}", "{: <-.3o}", DEF),
    row!(Octal, "{:<-5(bg=brightgreen,bold)o}", "{:<-5o}", St { f: 16, b: 10, i: 1 }),
    row!(Octal, "{:<-1.2o}", "{:<-1.2o}", DEF),
    row!(Octal, "{:<-0o}", "{:<-0o}", DEF),
    row!(Octal, "{:<-0.3o}", "{:<-0.3o}", DEF),
    row!(Octal, "{: <-07o}", "{: <-07o}", DEF),
    row!(Octal, "{:<-07.1o}", "{:<-07.1o}", DEF),
    row!(Octal, "{:<-#o}", "{:<-#o}", DEF),
    row!(Octal, "{: <-#.5o}", "{: <-#.5o}", DEF),
    row!(Octal, "{:<-#6o}", "{:<-#6o}", DEF),
    row!(Octal, "{:<-#3.0o}", "{:<-#3.0o}", DEF),
    row!(Octal, "{:<-#0o}", "{:<-#0o}", DEF),
    row!(Octal, "{:<-#0.5o}", "{:<-#0.5o}", DEF),
    row!(Octal, "{:<-#012(faint,fg=white,)o}", "{:<-#012o}", St { f: 7, b: 16, i: 2 }),
    row!(Octal, "{:<-#03.0o}", "{:<-#03.0o}", DEF),
    row!(Octal, "{:^(bg=brightgreen,bold)o}", "{:^o}", St { f: 16, b: 10, i: 1 }),
    row!(Octal, "{:^.2(fg=red)o}", "{:^.2o}", St { f: 1, b: 16, i: 0 }),
    row!(Octal, "{:^3o}", "{:^3o}", DEF),
    row!(Octal, "{:^8.3o}", "{:^8.3o}", DEF),
    row!(Octal, "{:^0o}", "{:^0o}", DEF),
    row!(Octal, "{:^0.3o}", "{:^0.3o}", DEF),
    row!(Octal, "{:^08o}", "{:^08o}", DEF),
    row!(Octal, "{: ^03.3o}", "{: ^03.3o}", DEF),
    row!(Octal, "{: ^#o}", "{: ^#o}", DEF),
    row!(Octal, "{:^#.5o}", "{:^#.5o}", DEF),
    row!(Octal, "{:^#6(faint,fg=white,)o}", "{:^#6o}", St { f: 7, b: 16, i: 2 }),
    row!(Octal, "{: ^#6.5o}", "{: ^#6.5o}", DEF),
    row!(Octal, "{: ^#0o}", "{: ^#0o}", DEF),
    row!(Octal, "{:^#0.2o}", "{:^#0.2o}", DEF),
    row!(Octal, "{:^#06o}", "{:^#06o}", DEF),
    row!(Octal, "{:^#07.0o}", "{:^#07.0o}", DEF),
    row!(Octal, "{: ^+(faint,fg=white,)o}", "{: ^+o}", St { f: 7, b: 16, i: 2 }),
    row!(Octal, "{:^+.5o}", "{:^+.5o}", DEF),
    row!(Octal, "{: ^+11o}", "{: ^+11o}", DEF),
    row!(Octal, "{:^+2.2(faint,fg=white,)o}", "{:^+2.2o}", St { f: 7, b: 16, i: 2 }),
    row!(Octal, "{: ^+0(bg=brightgreen,bold)o}", "{: ^+0o}", St { f: 16, b: 10, i: 1 }),
    row!(Octal, "{:^+0.4o}", "{:^+0.4o}", DEF),
    row!(Octal, "{:^+05o}", "{:^+05o}", DEF),
    row!(Octal, "{:^+02.0o}", "{:^+02.0o}", DEF),
    row!(Octal, "{:^+#o}", "{:^+#o}", DEF),
    row!(Octal, "{:^+#.5o}", "{:^+#.5o}", DEF),
    row!(Octal, "{:^+#6o}", "{:^+#6o}", DEF),
    row!(Octal, "{:^+#1.4o}", "{:^+#1.4o}", DEF),
    row!(Octal, "{:^+#0(fg=red)o}", "{:^+#0o}", St { f: 1, b: 16, i: 0 }),
    row!(Octal, "{: ^+#0.2(fg=red)o}", "{: ^+#0.2o}", St { f: 1, b: 16, i: 0 }),
    row!(Octal, "{:^+#07o}", "{:^+#07o}", DEF),
    row!(Octal, "{:^+#09.0o}", "{:^+#09.0o}", DEF),
    row!(Octal, "{: ^-o}", "{: ^-o}", DEF),
    row!(Octal, "{:^-.0o}", "{:^-.0o}", DEF),
    row!(Octal, "{: ^-9o}", "{: ^-9o}", DEF),
    row!(Octal, "{:^-3.3o}", "{:^-3.3o}", DEF),
    row!(Octal, "{:^-0o}", "{:^-0o}", DEF),
    row!(Octal, "{:^-0.4(fg=red)o}", "{:^-0.4o}", St { f: 1, b: 16, i: 0 }),
    row!(Octal, "{: ^-011o}", "{: ^-011o}", DEF),
    row!(Octal, "{:^-08.0o}", "{:^-08.0o}", DEF),
    row!(Octal, "{:^-#(faint,fg=white,)o}", "{:^-#o}", St { f: 7, b: 16, i: 2 }),
    row!(Octal, "{: ^-#.1o}", "{: ^-#.1o}", DEF),
    row!(Octal, "{:^-#11o}", "{:^-#11o}", DEF),
    row!(Octal, "{:^-#12.0o}", "{:^-#12.0o}", DEF),
    row!(Octal, "{: ^-#0o}", "{: ^-#0o}", DEF),
    row!(Octal, "{:^-#0.3o}", "{:^-#0.3o}", DEF),
    row!(Octal, "{:^-#05o}", "{:^-#05o}", DEF),
    row!(Octal, "{:^-#09.1o}", "{:^-#09.1o}", DEF),
    row!(Octal, "{: >(faint,fg=white,)o}", "{: >o}", St { f: 7, b: 16, i: 2 }),
    row!(Octal, "{: >.0o}", "{: >.0o}", DEF),
    row!(Octal, "{:>2o}", "{:>2o}", DEF),
    row!(Octal, "{:>10.3o}", "{:>10.3o}", DEF),
    row!(Octal, "{:>0o}", "{:>0o}", DEF),
    row!(Octal, "{:>0.3o}", "{:>0.3o}", DEF),
    row!(Octal, "{: >05o}", "{: >05o}", DEF),
    row!(Octal, "{:>012.2(faint,fg=white,)o}", "{:>012.2o}", St { f: 7, b: 16, i: 2 }),
    row!(Octal, "{:>#o}", "{:>#o}", DEF),
    row!(Octal, "{:>#.5o}", "{:>#.5o}", DEF),
    row!(Octal, "{:>#8(faint,fg=white,)o}", "{:>#8o}", St { f: 7, b: 16, i: 2 }),
    row!(Octal, "{: >#8.2(faint,fg=white,)o}", "{: >#8.2o}", St { f: 7, b: 16, i: 2 }),
    row!(Octal, "{: >#0o}", "{: >#0o}", DEF),
    row!(Octal, "{: >#0.4o}", "{: >#0.4o}", DEF),
    row!(Octal, "{:>#08(fg=red)o}", "{:>#08o}", St { f: 1, b: 16, i: 0 }),
    row!(Octal, "{:>#011.3(bg=brightgreen,bold)o}", "{:>#011.3o}", St { f: 16, b: 10, i: 1 }),
    row!(Octal, "{:>+(faint,fg=white,)o}", "{:>+o}", St { f: 7, b: 16, i: 2 }),
    row!(Octal, "{: >+.4o}", "{: >+.4o}", DEF),
    row!(Octal, "{: >+11o}", "{: >+11o}", DEF),
    row!(Octal, "{:>+12.3(faint,fg=white,)o}", "{:>+12.3o}", St { f: 7, b: 16, i: 2 }),
    row!(Octal, "{: >+0o}", "{: >+0o}", DEF),
    row!(Octal, "{:>+0.1o}", "{:>+0.1o}", DEF),
    row!(Octal, "{:>+010o}", "{:>+010o}", DEF),
    row!(Octal, "{:>+01.2o}", "{:>+01.2o}", DEF),
    row!(Octal, "{: >+#o}", "{: >+#o}", DEF),
    row!(Octal, "{:>+#.1(fg=red)o}", "{:>+#.1o}", St { f: 1, b: 16, i: 0 }),
    row!(Octal, "{: >+#11(bg=brightgreen,bold)o}", "{: >+#11o}", St { f: 16, b: 10, i: 1 }),
    row!(Octal, "{: >+#7.3o}", "{: >+#7.3o}", DEF),
    row!(Octal, "{: >+#0o}", "{: >+#0o}", DEF),
    row!(Octal, "{: >+#0.0(fg=red)o}", "{: >+#0.0o}", St { f: 1, b: 16, i: 0 }),
    row!(Octal, "{:>+#01o}", "{:>+#01o}", DEF),
    row!(Octal, "{: >+#09.0o}", "{: >+#09.0o}", DEF),
    row!(Octal, "{: >-o}", "{: >-o}", DEF),
    row!(Octal, "{:>-.1o}", "{:>-.1o}", DEF),
    row!(Octal, "{:>-7o}", "{:>-7o}", DEF),
    row!(Octal, "{:>-7.0(fg=red)o}", "{:>-7.0o}", St { f: 1, b: 16, i: 0 }),
    row!(Octal, "{:>-0o}", "{:>-0o}", DEF),
    row!(Octal, "{:>-0.2o}", "{:>-0.2o}", DEF),
    row!(Octal, "{:>-07(fg=red)o}", "{:>-07o}", St { f: 1, b: 16, i: 0 }),
    row!(Octal, "{:>-08.1(bg=brightgreen,bold)o}", "{:>-08.1o}", St { f: 16, b: 10, i: 1 }),
    row!(Octal, "{:>-#o}", "{:>-#o}", DEF),
    row!(Octal, "{: >-#.2o}", "{: >-#.2o}", DEF),
    row!(Octal, "{:>-#7o}", "{:>-#7o}", DEF),
    row!(Octal, "{: >-#7.0o}", "{: >-#7.0o}", DEF),
    row!(Octal, "{:>-#0o}", "{:>-#0o}", DEF),
    row!(Octal, "{:>-#0.5o}", "{:>-#0.5o}", DEF),
    row!(Octal, "{:>-#02o}", "{:>-#02o}", DEF),
    row!(Octal, "{:>-#09.4(bg=brightgreen,bold)o}", "{:>-#09.4o}", St { f: 16, b: 10, i: 1 }),
];
pub static T5: &[Row<dyn core::fmt::LowerHex>] = &[
    row!(LowerHex, "{:x}", "{:x}", DEF),
    row!(LowerHex, "{:.3x}", "{:.3x}", DEF),
    row!(LowerHex, "{:10(fg=red)x}", "{:10x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{:12.2(fg=red)x}", "{:12.2x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{:0(bg=brightgreen,bold)x}", "{:0x}", St { f: 16, b: 10, i: 1 }),
    row!(LowerHex, "{:0.2x}", "{:0.2x}", DEF),
    row!(LowerHex, "{:05x}", "{:05x}", DEF),
    row!(LowerHex, "{:06.2x}", "{:06.2x}", DEF),
    row!(LowerHex, "{:#(bg=brightgreen,bold)x}", "{:#x}", St { f: 16, b: 10, i: 1 }),
    row!(LowerHex, "{:#.2(fg=red)x}", "{:#.2x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{:#2(fg=red)x}", "{:#2x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{:#10.1x}", "{:#10.1x}", DEF),
    row!(LowerHex, "{:#0(faint,fg=white,)x}", "{:#0x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{:#0.4x}", "{:#0.4x}", DEF),
    row!(LowerHex, "{:#07(faint,fg=white,)x}", "{:#07x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{:#09.3x}", "{:#09.3x}", DEF),
    row!(LowerHex, "{:+x}", "{:+x}", DEF),
    row!(LowerHex, "{:+.1x}", "{:+.1x}", DEF),
    row!(LowerHex, "{:+6(bg=brightgreen,bold)x}", "{:+6x}", St { f: 16, b: 10, i: 1 }),
    row!(LowerHex, "{:+11.3x}", "{:+11.3x}", DEF),
    row!(LowerHex, "{:+0(fg=red)x}", "{:+0x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{:+0.5(faint,fg=white,)x}", "{:+0.5x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{:+02(faint,fg=white,)x}", "{:+02x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{:+011.5(fg=red)x}", "{:+011.5x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{:+#x}", "{:+#x}", DEF),
    row!(LowerHex, "{:+#.0x}", "{:+#.0x}", DEF),
    row!(LowerHex, "{:+#10(bg=brightgreen,bold)x}", "{:+#10x}", St { f: 16, b: 10, i: 1 }),
    row!(LowerHex, "{:+#10.2x}", "{:+#10.2x}", DEF),
    row!(LowerHex, "{:+#0(bg=brightgreen,bold)x}", "{:+#0x}", St { f: 16, b: 10, i: 1 }),
    row!(LowerHex, "{:+#0.0x}", "{:+#0.0x}", DEF),
    row!(LowerHex, "{:+#02x}", "{:+#02x}", DEF),
    row!(LowerHex, "{:+#08.5(fg=red)x}", "{:+#08.5x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{:-x}", "{:-x}", DEF),
    row!(LowerHex, "{:-.4(faint,fg=white,)x}", "{:-.4x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{:-11x}", "{:-11x}", DEF),
    row!(LowerHex, "{:-2.3(fg=red)x}", "{:-2.3x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{:-0x}", "{:-0x}", DEF),
    row!(LowerHex, "{:-0.1(faint,fg=white,)x}", "{:-0.1x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{:-012x}", "{:-012x}", DEF),
    row!(LowerHex, "{:-07.4x}", "{:-07.4x}", DEF),
    row!(LowerHex, "{:-#x}", "{:-#x}", DEF),
    row!(LowerHex, "{:-#.0x}", "{:-#.0x}", DEF),
    row!(LowerHex, "{:-#11(fg=red)x}", "{:-#11x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{:-#7.1(bg=brightgreen,bold)x}", "{:-#7.1x}", St { f: 16, b: 10, i: 1 }),
    row!(LowerHex, "{:-#0x}", "{:-#0x}", DEF),
    row!(LowerHex, "{:-#0.0x}", "{:-#0.0x}", DEF),
    row!(LowerHex, "{:-#03x}", "{:-#03x}", DEF),
    row!(LowerHex, "{:-#03.0(fg=red)x}", "{:-#03.0x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{:<(fg=red)x}", "{:<x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{:<.3x}", "{:<.3x}", DEF),
    row!(LowerHex, "{:<6x}", "{:<6x}", DEF),
    row!(LowerHex, "{:<7.5x}", "{:<7.5x}", DEF),
    row!(LowerHex, "{:<0x}", "{:<0x}", DEF),
    row!(LowerHex, "{:<0.5(bg=brightgreen,bold)x}", "{:<0.5x}", St { f: 16, b: 10, i: 1 }),
    row!(LowerHex, "{:<012(fg=red)x}", "{:<012x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{: <06.2x}", "{: <06.2x}", DEF),
    row!(LowerHex, "{:<#x}", "{:<#x}", DEF),
    row!(LowerHex, "{:<#.3(fg=red)x}", "{:<#.3x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{:<#12x}", "{:<#12x}", DEF),
    row!(LowerHex, "{:<#7.3x}", "{:<#7.3x}", DEF),
    row!(LowerHex, "{:<#0(faint,fg=white,)x}", "{:<#0x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{: <#0.0(bg=brightgreen,bold)x}", "{: <#0.0x}", St { f: 16, b: 10, i: 1 }),
    row!(LowerHex, "{:<#08(bg=brightgreen,bold)x}", "{:<#08x}", St { f: 16, b: 10, i: 1 }),
    row!(LowerHex, "{: <#01.3(fg=red)x}", "{: <#01.3x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{:<+x}", "{:<+x}", DEF),
    row!(LowerHex, "{:<+.3x}", "{:<+.3x}", DEF),
    row!(LowerHex, "{: <+1x}", "{: <+1x}", DEF),
    row!(LowerHex, "{:<+8.4(faint,fg=white,)x}", "{:<+8.4x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{:<+0(fg=red)x}", "{:<+0x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{: <+0.0x}", "{: <+0.0x}", DEF),
    row!(LowerHex, "{:<+01(fg=red)x}", "{:<+01x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{: <+01.1(faint,fg=white,)x}", "{: <+01.1x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{:<+#x}", "{:<+#x}", DEF),
    row!(LowerHex, "{: <+#.0x}", "{: <+#.0x}", DEF),
    row!(LowerHex, "{: <+#2(fg=red)x}", "{: <+#2x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{: <+#10.1x}", "{: <+#10.1x}", DEF),
    row!(LowerHex, "{:<+#0(faint,fg=white,)x}", "{:<+#0x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{:<+#0.3x}", "{:<+#0.3x}", DEF),
    row!(LowerHex, "{: <+#07x}", "{: <+#07x}", DEF),
    row!(LowerHex, "{:<+#011.3x}", "{:<+#011.3x}", DEF),
    row!(LowerHex, "{:<-(bg=brightgreen,bold)x}", "{:<-x}", St { f: 16, b: 10, i: 1 }),
    row!(LowerHex, "{:<-.2(faint,fg=white,)x}", "{:<-.2x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{: <-12x}", "{: <-12x}", DEF),
    row!(LowerHex, "{: <-5.0(bg=brightgreen,bold)x}", "{: <-5.0x}", St { f: 16, b: 10, i: 1 }),
    row!(LowerHex, "{:<-0x}", "{:<-0x}", DEF),
    row!(LowerHex, "{:<-0.2(faint,fg=white,)x}", "{:<-0.2x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{: <-02x}", "{: <-02x}", DEF),
    row!(LowerHex, "{:<-07.4x}", "{:<-07.4x}", DEF),
    row!(LowerHex, "{:<-#x}", "{:<-#x}", DEF),
    row!(LowerHex, "{:<-#.2x}", "{:<-#.2x}", DEF),
    row!(LowerHex, "{:<-#12x}", "{:<-#12x}", DEF),
    row!(LowerHex, "{: <-#9.4(fg=red)x}", "{: <-#9.4x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{:<-#0x}", "{:<-#0x}", DEF),
    row!(LowerHex, "{: <-#0.4x}", "{: <-#0.4x}", DEF),
    row!(LowerHex, "{:<-#01(bg=brightgreen,bold)x}", "{:<-#01x}", St { f: 16, b: 10, i: 1 }),
    row!(LowerHex, "{:<-#011.1(bg=brightgreen,bold)x}", "{:<-#011.1x}", St { f: 16, b: 10, i: 1 }),
    row!(LowerHex, "{: ^x}", "{: ^x}", DEF),
    row!(LowerHex, "{:^.0(bg=brightgreen,bold)x}", "{:^.0x}", St { f: 16, b: 10, i: 1 }),
    row!(LowerHex, "{:^12x}", "{:^12x}", DEF),
    row!(LowerHex, "{: ^5.3x}", "{: ^5.3x}", DEF),
    row!(LowerHex, "{:^0(faint,fg=white,)x}", "{:^0x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{:^0.2x}", "{:^0.2x}", DEF),
    row!(LowerHex, "{: ^09x}", "{: ^09x}", DEF),
    row!(LowerHex, "{:^012.1x}", "{:^012.1x}", DEF),
    row!(LowerHex, "{:^#(fg=red)x}", "{:^#x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{:^#.4x}", "{:^#.4x}", DEF),
    row!(LowerHex, "{:^#12x}", "{:^#12x}", DEF),
    row!(LowerHex, "{:^#1.1x}", "{:^#1.1x}", DEF),
    row!(LowerHex, "{:^#0x}", "{:^#0x}", DEF),
    row!(LowerHex, "{:^#0.2x}", "{:^#0.2x}", DEF),
    row!(LowerHex, "{: ^#012x}", "{: ^#012x}", DEF),
    row!(LowerHex, "{: ^#011.1(fg=red)x}", "{: ^#011.1x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{: ^+x}", "{: ^+x}", DEF),
    row!(LowerHex, "{:^+.2x}", "{:^+.2x}", DEF),
    row!(LowerHex, "{:^+12x}", "{:^+12x}", DEF),
    row!(LowerHex, "{:^+10.5x}", "{:^+10.5x}", DEF),
    row!(LowerHex, "{:^+0x}", "{:^+0x}", DEF),
    row!(LowerHex, "{:^+0.2x}", "{:^+0.2x}", DEF),
    row!(LowerHex, "{: ^+08x}", "{: ^+08x}", DEF),
    row!(LowerHex, "{: ^+09.2x}", "{: ^+09.2x}", DEF),
    row!(LowerHex, "{:^+#x}", "{:^+#x}", DEF),
    row!(LowerHex, "{: ^+#.1(bg=brightgreen,bold)x}", "{: ^+#.1x}", St { f: 16, b: 10, i: 1 }),
    row!(LowerHex, "{:^+#6(bg=brightgreen,bold)x}", "{:^+#6x}", St { f: 16, b: 10, i: 1 }),
    row!(LowerHex, "{:^+#8.5(faint,fg=white,)x}", "{:^+#8.5x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{:^+#0x}", "{:^+#0x}", DEF),
    row!(LowerHex, "{:^+#0.0x}", "{:^+#0.0x}", DEF),
    row!(LowerHex, "{:^+#012(faint,fg=white,)x}", "{:^+#012x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{:^+#011.3x}", "{:^+#011.3x}", DEF),
    row!(LowerHex, "{:^-(fg=red)x}", "{:^-x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{: ^-.2x}", "{: ^-.2x}", DEF),
    row!(LowerHex, "{:^-1(fg=red)x}", "{:^-1x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{:^-3.1x}", "{:^-3.1x}", DEF),
    row!(LowerHex, "{:^-0x}", "{:^-0x}", DEF),
    row!(LowerHex, "{:^-0.4(bg=brightgreen,bold)x}", "{:^-0.4x}", St { f: 16, b: 10, i: 1 }),
    row!(LowerHex, "{: ^-01x}", "{: ^-01x}", DEF),
    row!(LowerHex, "{:^-02.0(fg=red)x}", "{:^-02.0x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{:^-#x}", "{:^-#x}", DEF),
    row!(LowerHex, "{:^-#.1(faint,fg=white,)x}", "{:^-#.1x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{:^-#3x}", "{:^-#3x}", DEF),
    row!(LowerHex, "{:^-#8.1x}", "{:^-#8.1x}", DEF),
    row!(LowerHex, "{:^-#0x}", "{:^-#0x}", DEF),
    row!(LowerHex, "{: ^-#0.3x}", "{: ^-#0.3x}", DEF),
    row!(LowerHex, "{:^-#08x}", "{:^-#08x}", DEF),
    row!(LowerHex, "{:^-#01.4x}", "{:^-#01.4x}", DEF),
    row!(LowerHex, "{: >(bg=brightgreen,bold)x}", "{: >x}", St { f: 16, b: 10, i: 1 }),
    row!(LowerHex, "{:>.1x}", "{:>.1x}", DEF),
    row!(LowerHex, "{: >5x}", "{: >5x}", DEF),
    row!(LowerHex, "{:>5.3(faint,fg=white,)x}", "{:>5.3x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{: >0x}", "{: >0x}", DEF),
    row!(LowerHex, "{:>0.5(faint,fg=white,)x}", "{:>0.5x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{: >02x}", "{: >02x}", DEF),
    row!(LowerHex, "{: >010.4(fg=red)x}", "{: >010.4x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{:>#x}", "{:>#x}", DEF),
    row!(LowerHex, "{:>#.3x}", "{:>#.3x}", DEF),
    row!(LowerHex, "{:>#7x}", "{:>#7x}", DEF),
    row!(LowerHex, "{:>#2.5x}", "{:>#2.5x}", DEF),
    row!(LowerHex, "{:>#0(faint,fg=white,)x}", "{:>#0x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{:>#0.5x}", "{:>#0.5x}", DEF),
    row!(LowerHex, "{:>#012(bg=brightgreen,bold)x}", "{:>#012x}", St { f: 16, b: 10, i: 1 }),
    row!(LowerHex, "{:>#02.1(faint,fg=white,)x}", "{:>#02.1x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{:>+x}", "{:>+x}", DEF),
    row!(LowerHex, "{:>+.5x}", "{:>+.5x}", DEF),
    row!(LowerHex, "{:>+10x}", "{:>+10x}", DEF),
    row!(LowerHex, "{: >+2.2(faint,fg=white,)x}", "{: >+2.2x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{:>+0x}", "{:>+0x}", DEF),
    row!(LowerHex, "{:>+0.2x}", "{:>+0.2x}", DEF),
    row!(LowerHex, "{: >+012(faint,fg=white,)x}", "{: >+012x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{:>+09.1x}", "{:>+09.1x}", DEF),
    row!(LowerHex, "{: >+#(faint,fg=white,)x}", "{: >+#x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{:>+#.0x}", "{:>+#.0x}", DEF),
    row!(LowerHex, "{:>+#7(faint,fg=white,)x}", "{:>+#7x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{:>+#6.1(faint,fg=white,)x}", "{:>+#6.1x}", St { f: 7, b: 16, i: 2 }),
    row!(LowerHex, "{: >+#0x}", "{: >+#0x}", DEF),
    row!(LowerHex, "{: >+#0.4x}", "{: >+#0.4x}", DEF),
    row!(LowerHex, "{:>+#03x}", "{:>+#03x}", DEF),
    row!(LowerHex, "{: >+#07.4x}", "{: >+#07.4x}", DEF),
    row!(LowerHex, "{:>-(bg=brightgreen,bold)x}", "{:>-x}", St { f: 16, b: 10, i: 1 }),
    row!(LowerHex, "{:>-.3x}", "{:>-.3x}", DEF),
    row!(LowerHex, "{:>-3(bg=brightgreen,bold)x}", "{:>-3x}", St { f: 16, b: 10, i: 1 }),
    row!(LowerHex, "{:>-10.5x}", "{:>-10.5x}", DEF),
    row!(LowerHex, "{:>-0x}", "{:>-0x}", DEF),
    row!(LowerHex, "{:>-0.3x}", "{:>-0.3x}", DEF),
    row!(LowerHex, "{:>-03(fg=red)x}", "{:>-03x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{:>-02.3x}", "{:>-02.3x}", DEF),
    row!(LowerHex, "{:>-#(fg=red)x}", "{:>-#x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{: >-#.2(bg=brightgreen,bold)x}", "{: >-#.2x}", St { f: 16, b: 10, i: 1 }),
    row!(LowerHex, "{: >-#10x}", "{: >-#10x}", DEF),
    row!(LowerHex, "{: >-#6.5(fg=red)x}", "{: >-#6.5x}", St { f: 1, b: 16, i: 0 }),
    row!(LowerHex, "{:>-#0x}", "{:>-#0x}", DEF),
    row!(LowerHex, "{:>-#0.4x}", "{:>-#0.4x}", DEF),
    row!(LowerHex, "{:>-#01x}", "{:>-#01x}", DEF),
    row!(LowerHex, "{: >-#03.4(faint,fg=white,)x}", "{: >-#03.4x}", St { f: 7, b: 16, i: 2 }),
];
pub static T6: &[Row<dyn core::fmt::UpperHex>] = &[
    row!(UpperHex, "{:(faint,fg=white,)X}", "{:X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{:.5(fg=red)X}", "{:.5X}", St { f: 1, b: 16, i: 0 }),
    row!(UpperHex, "{:9(fg=red)X}", "{:9X}", St { f: 1, b: 16, i: 0 }),
    row!(UpperHex, "{:9.1X}", "{:9.1X}", DEF),
    row!(UpperHex, "{:0X}", "{:0X}", DEF),
    row!(UpperHex, "{:0.3X}", "{:0.3X}", DEF),
    row!(UpperHex, "{:05X}", "{:05X}", DEF),
    row!(UpperHex, "{:07.1X}", "{:07.1X}", DEF),
    row!(UpperHex, "{:#X}", "{:#X}", DEF),
    row!(UpperHex, "{:#.0X}", "{:#.0X}", DEF),
    row!(UpperHex, "{:#9X}", "{:#9X}", DEF),
    row!(UpperHex, "{:#7.0X}", "{:#7.0X}", DEF),
    row!(UpperHex, "{:#0(bg=brightgreen,bold)X}", "{:#0X}", St { f: 16, b: 10, i: 1 }),
    row!(UpperHex, "{:#0.3X}", "{:#0.3X}", DEF),
    row!(UpperHex, "{:#09(bg=brightgreen,bold)X}", "{:#09X}", St { f: 16, b: 10, i: 1 }),
    row!(UpperHex, "{:#07.4X}", "{:#07.4X}", DEF),
    row!(UpperHex, "{:+X}", "{:+X}", DEF),
    row!(UpperHex, "{:+.4(faint,fg=white,)X}", "{:+.4X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{:+10X}", "{:+10X}", DEF),
    row!(UpperHex, "{:+12.1(faint,fg=white,)X}", "{:+12.1X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{:+0X}", "{:+0X}", DEF),
    row!(UpperHex, "{:+0.1(bg=brightgreen,bold)X}", "{:+0.1X}", St { f: 16, b: 10, i: 1 }),
    row!(UpperHex, "{:+03(bg=brightgreen,bold)X}", "{:+03X}", St { f: 16, b: 10, i: 1 }),
    row!(UpperHex, "{:+07.1(faint,fg=white,)X}", "{:+07.1X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{:+#(bg=brightgreen,bold)X}", "{:+#X}", St { f: 16, b: 10, i: 1 }),
    row!(UpperHex, "{:+#.1(fg=red)X}", "{:+#.1X}", St { f: 1, b: 16, i: 0 }),
    row!(UpperHex, "{:+#2X}", "{:+#2X}", DEF),
    row!(UpperHex, "{:+#7.3(faint,fg=white,)X}", "{:+#7.3X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{:+#0X}", "{:+#0X}", DEF),
    row!(UpperHex, "{:+#0.2X}", "{:+#0.2X}", DEF),
    row!(UpperHex, "{:+#07(faint,fg=white,)X}", "{:+#07X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{:+#06.0X}", "{:+#06.0X}", DEF),
    row!(UpperHex, "{:-X}", "{:-X}", DEF),
    row!(UpperHex, "{:-.4X}", "{:-.4X}", DEF),
    row!(UpperHex, "{:-3X}", "{:-3X}", DEF),
    row!(UpperHex, "{:-7.1X}", "{:-7.1X}", DEF),
    row!(UpperHex, "{:-0X}", "{:-0X}", DEF),
    row!(UpperHex, "{:-0.2(faint,fg=white,)X}", "{:-0.2X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{:-02X}", "{:-02X}", DEF),
    row!(UpperHex, "{:-012.2X}", "{:-012.2X}", DEF),
    row!(UpperHex, "{:-#(faint,fg=white,)X}", "{:-#X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{:-#.4X}", "{:-#.4X}", DEF),
    row!(UpperHex, "{:-#6(bg=brightgreen,bold)X}", "{:-#6X}", St { f: 16, b: 10, i: 1 }),
    row!(UpperHex, "{:-#8.3X}", "{:-#8.3X}", DEF),
    row!(UpperHex, "{:-#0X}", "{:-#0X}", DEF),
    row!(UpperHex, "{:-#0.3X}", "{:-#0.3X}", DEF),
    row!(UpperHex, "{:-#08(fg=red)X}", "{:-#08X}", St { f: 1, b: 16, i: 0 }),
    row!(UpperHex, "{:-#07.3X}", "{:-#07.3X}", DEF),
    row!(UpperHex, "{:<X}", "{:<X}", DEF),
    row!(UpperHex, "{:<.3(bg=brightgreen,bold)X}", "{:<.3X}", St { f: 16, b: 10, i: 1 }),
    row!(UpperHex, "{:<7X}", "{:<7X}", DEF),
    row!(UpperHex, "{:<9.3X}", "{:<9.3X}", DEF),
    row!(UpperHex, "{: <0X}", "{: <0X}", DEF),
    row!(UpperHex, "{: <0.1X}", "{: <0.1X}", DEF),
    row!(UpperHex, "{:<01(faint,fg=white,)X}", "{:<01X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{:<03.0(faint,fg=white,)X}", "{:<03.0X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{:<#X}", "{:<#X}", DEF),
    row!(UpperHex, "{:<#.0X}", "{:<#.0X}", DEF),
    row!(UpperHex, "{:<#3(bg=brightgreen,bold)X}", "{:<#3X}", St { f: 16, b: 10, i: 1 }),
    row!(UpperHex, "{:<#10.4X}", "{:<#10.4X}", DEF),
    row!(UpperHex, "{:<#0X}", "{:<#0X}", DEF),
    row!(UpperHex, "{:<#0.4X}", "{:<#0.4X}", DEF),
    row!(UpperHex, "{:<#01X}", "{:<#01X}", DEF),
    row!(UpperHex, "{: <#01.4X}", "{: <#01.4X}", DEF),
    row!(UpperHex, "{: <+(bg=brightgreen,bold)X}", "{: <+X}", St { f: 16, b: 10, i: 1 }),
    row!(UpperHex, "{:<+.5X}", "{:<+.5X}", DEF),
    row!(UpperHex, "{:<+8X}", "{:<+8X}", DEF),
    row!(UpperHex, "{:<+8.5(fg=red)X}", "{:<+8.5X}", St { f: 1, b: 16, i: 0 }),
    row!(UpperHex, "{: <+0X}", "{: <+0X}", DEF),
    row!(UpperHex, "{:<+0.0(faint,fg=white,)X}", "{:<+0.0X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{:<+02X}", "{:<+02X}", DEF),
    row!(UpperHex, "{: <+03.0(faint,fg=white,)X}", "{: <+03.0X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{:<+#X}", "{:<+#X}", DEF),
    row!(UpperHex, "{:<+#.1X}", "{:<+#.1X}", DEF),
    row!(UpperHex, "{: <+#8X}", "{: <+#8X}", DEF),
    row!(UpperHex, "{:<+#8.1X}", "{:<+#8.1X}", DEF),
    row!(UpperHex, "{:<+#0X}", "{:<+#0X}", DEF),
    row!(UpperHex, "{:<+#0.4X}", "{:<+#0.4X}", DEF),
    row!(UpperHex, "{: <+#012(fg=red)X}", "{: <+#012X}", St { f: 1, b: 16, i: 0 }),
    row!(UpperHex, "{:<+#012.2X}", "{:<+#012.2X}", DEF),
    row!(UpperHex, "{: <-X}", "{: <-X}", DEF),
    row!(UpperHex, "{:<-.0X}", "{:<-.0X}", DEF),
    row!(UpperHex, "{: <-2X}", "{: <-2X}", DEF),
    row!(UpperHex, "{:<-6.4X}", "{:<-6.4X}", DEF),
    row!(UpperHex, "{:<-0(bg=brightgreen,bold)X}", "{:<-0X}", St { f: 16, b: 10, i: 1 }),
    row!(UpperHex, "{:<-0.5X}", "{:<-0.5X}", DEF),
    row!(UpperHex, "{:<-011(bg=brightgreen,bold)X}", "{:<-011X}", St { f: 16, b: 10, i: 1 }),
    row!(UpperHex, "{:<-012.1X}", "{:<-012.1X}", DEF),
    row!(UpperHex, "{: <-#(fg=red)X}", "{: <-#X}", St { f: 1, b: 16, i: 0 }),
    row!(UpperHex, "{: <-#.0X}", "{: <-#.0X}", DEF),
    row!(UpperHex, "{:<-#12X}", "{:<-#12X}", DEF),
    row!(UpperHex, "{:<-#2.5X}", "{:<-#2.5X}", DEF),
    row!(UpperHex, "{:<-#0X}", "{:<-#0X}", DEF),
    row!(UpperHex, "{: <-#0.5(faint,fg=white,)X}", "{: <-#0.5X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{: <-#011X}", "{: <-#011X}", DEF),
    row!(UpperHex, "{:<-#012.1X}", "{:<-#012.1X}", DEF),
    row!(UpperHex, "{:^X}", "{:^X}", DEF),
    row!(UpperHex, "{:^.3X}", "{:^.3X}", DEF),
    row!(UpperHex, "{:^9X}", "{:^9X}", DEF),
    row!(UpperHex, "{: ^9.5X}", "{: ^9.5X}", DEF),
    row!(UpperHex, "{:^0X}", "{:^0X}", DEF),
    row!(UpperHex, "{:^0.1(faint,fg=white,)X}", "{:^0.1X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{:^011(faint,fg=white,)X}", "{:^011X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{:^01.5X}", "{:^01.5X}", DEF),
    row!(UpperHex, "{:^#X}", "{:^#X}", DEF),
    row!(UpperHex, "{:^#.2X}", "{:^#.2X}", DEF),
    row!(UpperHex, "{:^#1X}", "{:^#1X}", DEF),
    row!(UpperHex, "{:^#1.5X}", "{:^#1.5X}", DEF),
    row!(UpperHex, "{:^#0X}", "{:^#0X}", DEF),
    row!(UpperHex, "{:^#0.0(faint,fg=white,)X}", "{:^#0.0X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{:^#03X}", "{:^#03X}", DEF),
    row!(UpperHex, "{:^#07.0X}", "{:^#07.0X}", DEF),
    row!(UpperHex, "{:^+(bg=brightgreen,bold)X}", "{:^+X}", St { f: 16, b: 10, i: 1 }),
    row!(UpperHex, "{:^+.0X}", "{:^+.0X}", DEF),
    row!(UpperHex, "{:^+9X}", "{:^+9X}", DEF),
    row!(UpperHex, "{:^+1.4X}", "{:^+1.4X}", DEF),
    row!(UpperHex, "{: ^+0(bg=brightgreen,bold)X}", "{: ^+0X}", St { f: 16, b: 10, i: 1 }),
    row!(UpperHex, "{:^+0.0X}", "{:^+0.0X}", DEF),
    row!(UpperHex, "{: ^+06X}", "{: ^+06X}", DEF),
    row!(UpperHex, "{:^+02.4X}", "{:^+02.4X}", DEF),
    row!(UpperHex, "{:^+#X}", "{:^+#X}", DEF),
    row!(UpperHex, "{:^+#.2(fg=red)X}", "{:^+#.2X}", St { f: 1, b: 16, i: 0 }),
    row!(UpperHex, "{:^+#8X}", "{:^+#8X}", DEF),
    row!(UpperHex, "{: ^+#9.4X}", "{: ^+#9.4X}", DEF),
    row!(UpperHex, "{:^+#0X}", "{:^+#0X}", DEF),
    row!(UpperHex, "{:^+#0.2(faint,fg=white,)X}", "{:^+#0.2X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{:^+#011X}", "{:^+#011X}", DEF),
    row!(UpperHex, "{:^+#01.2(bg=brightgreen,bold)X}", "{:^+#01.2X}", St { f: 16, b: 10, i: 1 }),
    row!(UpperHex, "{:^-X}", "{:^-X}", DEF),
    row!(UpperHex, "{:^-.1X}", "{:^-.1X}", DEF),
    row!(UpperHex, "{: ^-9X}", "{: ^-9X}", DEF),
    row!(UpperHex, "{: ^-7.4X}", "{: ^-7.4X}", DEF),
    row!(UpperHex, "{: ^-0X}", "{: ^-0X}", DEF),
    row!(UpperHex, "{:^-0.5X}", "{:^-0.5X}", DEF),
    row!(UpperHex, "{: ^-05X}", "{: ^-05X}", DEF),
    row!(UpperHex, "{:^-07.5(faint,fg=white,)X}", "{:^-07.5X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{:^-#X}", "{:^-#X}", DEF),
    row!(UpperHex, "{:^-#.2(bg=brightgreen,bold)X}", "{:^-#.2X}", St { f: 16, b: 10, i: 1 }),
    row!(UpperHex, "{:^-#10X}", "{:^-#10X}", DEF),
    row!(UpperHex, "{: ^-#10.4X}", "{: ^-#10.4X}", DEF),
    row!(UpperHex, "{: ^-#0(fg=red)X}", "{: ^-#0X}", St { f: 1, b: 16, i: 0 }),
    row!(UpperHex, "{:^-#0.3X}", "{:^-#0.3X}", DEF),
    row!(UpperHex, "{:^-#09X}", "{:^-#09X}", DEF),
    row!(UpperHex, "{: ^-#010.0X}", "{: ^-#010.0X}", DEF),
    row!(UpperHex, "{:>X}", "{:>X}", DEF),
    row!(UpperHex, "{:>.2(fg=red)X}", "{:>.2X}", St { f: 1, b: 16, i: 0 }),
    row!(UpperHex, "{:>3X}", "{:>3X}", DEF),
    row!(UpperHex, "{:>6.2X}", "{:>6.2X}", DEF),
    row!(UpperHex, "{: >0X}", "{: >0X}", DEF),
    row!(UpperHex, "{:>0.1(faint,fg=white,)X}", "{:>0.1X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{: >02X}", "{: >02X}", DEF),
    row!(UpperHex, "{:>011.3X}", "{:>011.3X}", DEF),
    row!(UpperHex, "{:>#(fg=red)X}", "{:>#X}", St { f: 1, b: 16, i: 0 }),
    row!(UpperHex, "{:>#.3X}", "{:>#.3X}", DEF),
    row!(UpperHex, "{: >#5X}", "{: >#5X}", DEF),
    row!(UpperHex, "{: >#1.1X}", "{: >#1.1X}", DEF),
    row!(UpperHex, "{:>#0X}", "{:>#0X}", DEF),
    row!(UpperHex, "{:>#0.1(bg=brightgreen,bold)X}", "{:>#0.1X}", St { f: 16, b: 10, i: 1 }),
    row!(UpperHex, "{: >#01X}", "{: >#01X}", DEF),
    row!(UpperHex, "{: >#03.1X}", "{: >#03.1X}", DEF),
    row!(UpperHex, "{: >+(fg=red)X}", "{: >+X}", St { f: 1, b: 16, i: 0 }),
    row!(UpperHex, "{:>+.1(faint,fg=white,)X}", "{:>+.1X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{: >+7X}", "{: >+7X}", DEF),
    row!(UpperHex, "{: >+3.2X}", "{: >+3.2X}", DEF),
    row!(UpperHex, "{: >+0X}", "{: >+0X}", DEF),
    row!(UpperHex, "{:>+0.2X}", "{:>+0.2X}", DEF),
    row!(UpperHex, "{: >+012(faint,fg=white,)X}", "{: >+012X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{:>+01.1(bg=brightgreen,bold)X}", "{:>+01.1X}", St { f: 16, b: 10, i: 1 }),
    row!(UpperHex, "{:>+#X}", "{:>+#X}", DEF),
    row!(UpperHex, "{: >+#.3X}", "{: >+#.3X}", DEF),
    row!(UpperHex, "{: >+#10X}", "{: >+#10X}", DEF),
    row!(UpperHex, "{:>+#9.1X}", "{:>+#9.1X}", DEF),
    row!(UpperHex, "{: >+#0X}", "{: >+#0X}", DEF),
    row!(UpperHex, "{:>+#0.1(faint,fg=white,)X}", "{:>+#0.1X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{: >+#07X}", "{: >+#07X}", DEF),
    row!(UpperHex, "{: >+#02.0X}", "{: >+#02.0X}", DEF),
    row!(UpperHex, "{:>-X}", "{:>-X}", DEF),
    row!(UpperHex, "{:>-.1X}", "{:>-.1X}", DEF),
    row!(UpperHex, "{:>-5(faint,fg=white,)X}", "{:>-5X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{: >-9.0X}", "{: >-9.0X}", DEF),
    row!(UpperHex, "{:>-0(faint,fg=white,)X}", "{:>-0X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{: >-0.2X}", "{: >-0.2X}", DEF),
    row!(UpperHex, "{:>-011(bg=brightgreen,bold)X}", "{:>-011X}", St { f: 16, b: 10, i: 1 }),
    row!(UpperHex, "{:>-08.3(bg=brightgreen,bold)X}", "{:>-08.3X}", St { f: 16, b: 10, i: 1 }),
    row!(UpperHex, "{:>-#X}", "{:>-#X}", DEF),
    row!(UpperHex, "{:>-#.1(faint,fg=white,)X}", "{:>-#.1X}", St { f: 7, b: 16, i: 2 }),
    row!(UpperHex, "{:>-#5X}", "{:>-#5X}", DEF),
    row!(UpperHex, "{: >-#9.3(fg=red)X}", "{: >-#9.3X}", St { f: 1, b: 16, i: 0 }),
    row!(UpperHex, "{: >-#0X}", "{: >-#0X}", DEF),
    row!(UpperHex, "{:>-#0.2(bg=brightgreen,bold)X}", "{:>-#0.2X}", St { f: 16, b: 10, i: 1 }),
    row!(UpperHex, "{:>-#011X}", "{:>-#011X}", DEF),
    row!(UpperHex, "{: >-#011.4X}", "{: >-#011.4X}", DEF),
];
pub static T7: &[Row<Probe>] = &[
    row!(Probe, "{:(faint,fg=white,)p}", "{:p}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:.3p}", "{:.3p}", DEF),
    row!(Probe, "{:5p}", "{:5p}", DEF),
    row!(Probe, "{:8.3p}", "{:8.3p}", DEF),
    row!(Probe, "{:0p}", "{:0p}", DEF),
    row!(Probe, "{:0.0p}", "{:0.0p}", DEF),
    row!(Probe, "{:08p}", "{:08p}", DEF),
    row!(Probe, "{:012.3p}", "{:012.3p}", DEF),
    row!(Probe, "{:#p}", "{:#p}", DEF),
    row!(Probe, "{:#.5p}", "{:#.5p}", DEF),
    row!(Probe, "{:#3p}", "{:#3p}", DEF),
    row!(Probe, "{:#11.0p}", "{:#11.0p}", DEF),
    row!(Probe, "{:#0p}", "{:#0p}", DEF),
    row!(Probe, "{:#0.1p}", "{:#0.1p}", DEF),
    row!(Probe, "{:#011p}", "{:#011p}", DEF),
    row!(Probe, "{:#012.4p}", "{:#012.4p}", DEF),
    row!(Probe, "{:+p}", "{:+p}", DEF),
    row!(Probe, "{:+.2(fg=red)p}", "{:+.2p}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:+3p}", "{:+3p}", DEF),
    row!(Probe, "{:+6.1p}", "{:+6.1p}", DEF),
    row!(Probe, "{:+0(bg=brightgreen,bold)p}", "{:+0p}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:+0.4p}", "{:+0.4p}", DEF),
    row!(Probe, "{:+05(fg=red)p}", "{:+05p}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:+02.3p}", "{:+02.3p}", DEF),
    row!(Probe, "{:+#p}", "{:+#p}", DEF),
    row!(Probe, "{:+#.1(bg=brightgreen,bold)p}", "{:+#.1p}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:+#10(fg=red)p}", "{:+#10p}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:+#6.1(bg=brightgreen,bold)p}", "{:+#6.1p}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:+#0(fg=red)p}", "{:+#0p}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:+#0.2p}", "{:+#0.2p}", DEF),
    row!(Probe, "{:+#06p}", "{:+#06p}", DEF),
    row!(Probe, "{:+#01.2p}", "{:+#01.2p}", DEF),
    row!(Probe, "{:-p}", "{:-p}", DEF),
    row!(Probe, "{:-.4p}", "{:-.4p}", DEF),
    row!(Probe, "{:-5p}", "{:-5p}", DEF),
    row!(Probe, "{:-12.1(fg=red)p}", "{:-12.1p}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:-0p}", "{:-0p}", DEF),
    row!(Probe, "{:-0.1p}", "{:-0.1p}", DEF),
    row!(Probe, "{:-012p}", "{:-012p}", DEF),
    row!(Probe, "{:-03.4p}", "{:-03.4p}", DEF),
    row!(Probe, "{:-#p}", "{:-#p}", DEF),
    row!(Probe, "{:-#.4(fg=red)p}", "{:-#.4p}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:-#2p}", "{:-#2p}", DEF),
    row!(Probe, "{:-#5.5(bg=brightgreen,bold)p}", "{:-#5.5p}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:-#0(fg=red)p}", "{:-#0p}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:-#0.1p}", "{:-#0.1p}", DEF),
    row!(Probe, "{:-#05p}", "{:-#05p}", DEF),
    row!(Probe, "{:-#03.4(faint,fg=white,)p}", "{:-#03.4p}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:<p}", "{:<p}", DEF),
    row!(Probe, "{:<.1p}", "{:<.1p}", DEF),
    row!(Probe, "{:<2(faint,fg=white,)p}", "{:<2p}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{: <11.3p}", "{: <11.3p}", DEF),
    row!(Probe, "{:<0p}", "{:<0p}", DEF),
    row!(Probe, "{:<0.5p}", "{:<0.5p}", DEF),
    row!(Probe, "{: <012(fg=red)p}", "{: <012p}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:<012.4(fg=red)p}", "{:<012.4p}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:<#p}", "{:<#p}", DEF),
    row!(Probe, "{: <#.4p}", "{: <#.4p}", DEF),
    row!(Probe, "{:<#5p}", "{:<#5p}", DEF),
    row!(Probe, "{:<#6.4p}", "{:<#6.4p}", DEF),
    row!(Probe, "{: <#0(fg=red)p}", "{: <#0p}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:<#0.5(faint,fg=white,)p}", "{:<#0.5p}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:<#03p}", "{:<#03p}", DEF),
    row!(Probe, "{:<#07.4p}", "{:<#07.4p}", DEF),
    row!(Probe, "{: <+(faint,fg=white,)p}", "{: <+p}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:<+.3(fg=red)p}", "{:<+.3p}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:<+12p}", "{:<+12p}", DEF),
    row!(Probe, "{:<+10.2p}", "{:<+10.2p}", DEF),
    row!(Probe, "{:<+0p}", "{:<+0p}", DEF),
    row!(Probe, "{:<+0.1p}", "{:<+0.1p}", DEF),
    row!(Probe, "{: <+01(bg=brightgreen,bold)p}", "{: <+01p}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{: <+03.1p}", "{: <+03.1p}", DEF),
    row!(Probe, "{: <+#p}", "{: <+#p}", DEF),
    row!(Probe, "{: <+#.1(faint,fg=white,)p}", "{: <+#.1p}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:<+#12p}", "{:<+#12p}", DEF),
    row!(Probe, "{:<+#7.2p}", "{:<+#7.2p}", DEF),
    row!(Probe, "{:<+#0p}", "{:<+#0p}", DEF),
    row!(Probe, "{:<+#0.0(faint,fg=white,)p}", "{:<+#0.0p}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:<+#07p}", "{:<+#07p}", DEF),
    row!(Probe, "{:<+#010.4(bg=brightgreen,bold)p}", "{:<+#010.4p}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:<-(fg=red)p}", "{:<-p}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:<-.1(fg=red)p}", "{:<-.1p}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:<-11p}", "{:<-11p}", DEF),
    row!(Probe, "{:<-12.3p}", "{:<-12.3p}", DEF),
    row!(Probe, "{:<-0p}", "{:<-0p}", DEF),
    row!(Probe, "{:<-0.3(bg=brightgreen,bold)p}", "{:<-0.3p}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:<-012p}", "{:<-012p}", DEF),
    row!(Probe, "{:<-011.2p}", "{:<-011.2p}", DEF),
    row!(Probe, "{:<-#(faint,fg=white,)p}", "{:<-#p}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{: <-#.4p}", "{: <-#.4p}", DEF),
    row!(Probe, "{: <-#3p}", "{: <-#3p}", DEF),
    row!(Probe, "{: <-#2.0p}", "{: <-#2.0p}", DEF),
    row!(Probe, "{:<-#0p}", "{:<-#0p}", DEF),
    row!(Probe, "{:<-#0.1p}", "{:<-#0.1p}", DEF),
    row!(Probe, "{: <-#09p}", "{: <-#09p}", DEF),
    row!(Probe, "{:<-#012.0(fg=red)p}", "{:<-#012.0p}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:^(faint,fg=white,)p}", "{:^p}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:^.1p}", "{:^.1p}", DEF),
    row!(Probe, "{:^12p}", "{:^12p}", DEF),
    row!(Probe, "{:^7.3p}", "{:^7.3p}", DEF),
    row!(Probe, "{:^0p}", "{:^0p}", DEF),
    row!(Probe, "{: ^0.1p}", "{: ^0.1p}", DEF),
    row!(Probe, "{:^06p}", "{:^06p}", DEF),
    row!(Probe, "{: ^05.0p}", "{: ^05.0p}", DEF),
    row!(Probe, "{:^#(faint,fg=white,)p}", "{:^#p}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:^#.0(bg=brightgreen,bold)p}", "{:^#.0p}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:^#10(faint,fg=white,)p}", "{:^#10p}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{: ^#12.0p}", "{: ^#12.0p}", DEF),
    row!(Probe, "{: ^#0p}", "{: ^#0p}", DEF),
    row!(Probe, "{: ^#0.2p}", "{: ^#0.2p}", DEF),
    row!(Probe, "{:^#07p}", "{:^#07p}", DEF),
    row!(Probe, "{:^#010.1(fg=red)p}", "{:^#010.1p}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:^+p}", "{:^+p}", DEF),
    row!(Probe, "{: ^+.0p}", "{: ^+.0p}", DEF),
    row!(Probe, "{: ^+5p}", "{: ^+5p}", DEF),
    row!(Probe, "{: ^+7.3(bg=brightgreen,bold)p}", "{: ^+7.3p}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:^+0p}", "{:^+0p}", DEF),
    row!(Probe, "{: ^+0.0p}", "{: ^+0.0p}", DEF),
    row!(Probe, "{:^+02p}", "{:^+02p}", DEF),
    row!(Probe, "{:^+07.5p}", "{:^+07.5p}", DEF),
    row!(Probe, "{: ^+#p}", "{: ^+#p}", DEF),
    row!(Probe, "{:^+#.1p}", "{:^+#.1p}", DEF),
    row!(Probe, "{: ^+#9p}", "{: ^+#9p}", DEF),
    row!(Probe, "{:^+#11.2(fg=red)p}", "{:^+#11.2p}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{: ^+#0p}", "{: ^+#0p}", DEF),
    row!(Probe, "{:^+#0.4(faint,fg=white,)p}", "{:^+#0.4p}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:^+#010p}", "{:^+#010p}", DEF),
    row!(Probe, "{:^+#011.2p}", "{:^+#011.2p}", DEF),
    row!(Probe, "{:^-p}", "{:^-p}", DEF),
    row!(Probe, "{: ^-.2p}", "{: ^-.2p}", DEF),
    row!(Probe, "{:^-3p}", "{:^-3p}", DEF),
    row!(Probe, "{: ^-10.2p}", "{: ^-10.2p}", DEF),
    row!(Probe, "{:^-0p}", "{:^-0p}", DEF),
    row!(Probe, "{: ^-0.4p}", "{: ^-0.4p}", DEF),
    row!(Probe, "{: ^-05p}", "{: ^-05p}", DEF),
    row!(Probe, "{:^-01.4(fg=red)p}", "{:^-01.4p}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:^-#p}", "{:^-#p}", DEF),
    row!(Probe, "{:^-#.2p}", "{:^-#.2p}", DEF),
    row!(Probe, "{:^-#9p}", "{:^-#9p}", DEF),
    row!(Probe, "{:^-#11.5p}", "{:^-#11.5p}", DEF),
    row!(Probe, "{:^-#0p}", "{:^-#0p}", DEF),
    row!(Probe, "{:^-#0.1p}", "{:^-#0.1p}", DEF),
    row!(Probe, "{:^-#010p}", "{:^-#010p}", DEF),
    row!(Probe, "{:^-#02.5p}", "{:^-#02.5p}", DEF),
    row!(Probe, "{:>(fg=red)p}", "{:>p}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:>.1p}", "{:>.1p}", DEF),
    row!(Probe, "{:>7p}", "{:>7p}", DEF),
    row!(Probe, "{:>2.3p}", "{:>2.3p}", DEF),
    row!(Probe, "{:>0p}", "{:>0p}", DEF),
    row!(Probe, "{:>0.3(faint,fg=white,)p}", "{:>0.3p}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{: >05p}", "{: >05p}", DEF),
    row!(Probe, "{:>010.4p}", "{:>010.4p}", DEF),
    row!(Probe, "{: >#p}", "{: >#p}", DEF),
    row!(Probe, "{:>#.4p}", "{:>#.4p}", DEF),
    row!(Probe, "{: >#2p}", "{: >#2p}", DEF),
    row!(Probe, "{: >#1.5p}", "{: >#1.5p}", DEF),
    row!(Probe, "{: >#0p}", "{: >#0p}", DEF),
    row!(Probe, "{:>#0.0(fg=red)p}", "{:>#0.0p}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{: >#07p}", "{: >#07p}", DEF),
    row!(Probe, "{: >#012.1p}", "{: >#012.1p}", DEF),
    row!(Probe, "{:>+p}", "{:>+p}", DEF),
    row!(Probe, "{:>+.5p}", "{:>+.5p}", DEF),
    row!(Probe, "{:>+8p}", "{:>+8p}", DEF),
    row!(Probe, "{:>+3.4p}", "{:>+3.4p}", DEF),
    row!(Probe, "{:>+0p}", "{:>+0p}", DEF),
    row!(Probe, "{:>+0.0p}", "{:>+0.0p}", DEF),
    row!(Probe, "{:>+05p}", "{:>+05p}", DEF),
    row!(Probe, "{:>+010.2(fg=red)p}", "{:>+010.2p}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{: >+#(faint,fg=white,)p}", "{: >+#p}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{: >+#.2(faint,fg=white,)p}", "{: >+#.2p}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{: >+#10(faint,fg=white,)p}", "{: >+#10p}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:>+#3.4p}", "{:>+#3.4p}", DEF),
    row!(Probe, "{: >+#0(bg=brightgreen,bold)p}", "{: >+#0p}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:>+#0.5p}", "{:>+#0.5p}", DEF),
    row!(Probe, "{:>+#03(faint,fg=white,)p}", "{:>+#03p}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{: >+#08.2p}", "{: >+#08.2p}", DEF),
    row!(Probe, "{:>-(bg=brightgreen,bold)p}", "{:>-p}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:>-.0(fg=red)p}", "{:>-.0p}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{: >-3(bg=brightgreen,bold)p}", "{: >-3p}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:>-2.5p}", "{:>-2.5p}", DEF),
    row!(Probe, "{: >-0p}", "{: >-0p}", DEF),
    row!(Probe, "{:>-0.4(faint,fg=white,)p}", "{:>-0.4p}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{: >-011p}", "{: >-011p}", DEF),
    row!(Probe, "{: >-09.0(bg=brightgreen,bold)p}", "{: >-09.0p}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{: >-#p}", "{: >-#p}", DEF),
    row!(Probe, "{: >-#.0p}", "{: >-#.0p}", DEF),
    row!(Probe, "{: >-#11(bg=brightgreen,bold)p}", "{: >-#11p}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{: >-#10.2(faint,fg=white,)p}", "{: >-#10.2p}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:>-#0p}", "{:>-#0p}", DEF),
    row!(Probe, "{:>-#0.5p}", "{:>-#0.5p}", DEF),
    row!(Probe, "{:>-#07p}", "{:>-#07p}", DEF),
    row!(Probe, "{:>-#012.0p}", "{:>-#012.0p}", DEF),
];
pub static T8: &[Row<dyn core::fmt::Binary>] = &[
    row!(Binary, "{:b}", "{:b}", DEF),
    row!(Binary, "{:.3b}", "{:.3b}", DEF),
    row!(Binary, "{:8(fg=red)b}", "{:8b}", St { f: 1, b: 16, i: 0 }),
    row!(Binary, "{:7.0b}", "{:7.0b}", DEF),
    row!(Binary, "{:0b}", "{:0b}", DEF),
    row!(Binary, "{:0.1b}", "{:0.1b}", DEF),
    row!(Binary, "{:09b}", "{:09b}", DEF),
    row!(Binary, "{:012.3(fg=red)b}", "{:012.3b}", St { f: 1, b: 16, i: 0 }),
    row!(Binary, "{:#(faint,fg=white,)b}", "{:#b}", St { f: 7, b: 16, i: 2 }),
    row!(Binary, "{:#.4b}", "{:#.4b}", DEF),
    row!(Binary, "{:#6b}", "{:#6b}", DEF),
    row!(Binary, "{:#1.3b}", "{:#1.3b}", DEF),
    row!(Binary, "{:#0b}", "{:#0b}", DEF),
    row!(Binary, "{:#0.4b}", "{:#0.4b}", DEF),
    row!(Binary, "{:#03b}", "{:#03b}", DEF),
    row!(Binary, "{:#09.2b}", "{:#09.2b}", DEF),
    row!(Binary, "{:+b}", "{:+b}", DEF),
    row!(Binary, "{:+.5b}", "{:+.5b}", DEF),
    row!(Binary, "{:+9(fg=red)b}", "{:+9b}", St { f: 1, b: 16, i: 0 }),
    row!(Binary, "{:+9.5(faint,fg=white,)b}", "{:+9.5b}", St { f: 7, b: 16, i: 2 }),
    row!(Binary, "{:+0b}", "{:+0b}", DEF),
    row!(Binary, "{:+0.3b}", "{:+0.3b}", DEF),
    row!(Binary, "{:+06b}", "{:+06b}", DEF),
    row!(Binary, "{:+010.2(bg=brightgreen,bold)b}", "{:+010.2b}", St { f: 16, b: 10, i: 1 }),
    row!(Binary, "{:+#(faint,fg=white,)b}", "{:+#b}", St { f: 7, b: 16, i: 2 }),
    row!(Binary, "{:+#.5b}", "{:+#.5b}", DEF),
    row!(Binary, "{:+#10(bg=brightgreen,bold)b}", "{:+#10b}", St { f: 16, b: 10, i: 1 }),
    row!(Binary, "{:+#1.4b}", "{:+#1.4b}", DEF),
    row!(Binary, "{:+#0b}", "{:+#0b}", DEF),
    row!(Binary, "{:+#0.4b}", "{:+#0.4b}", DEF),
    row!(Binary, "{:+#011b}", "{:+#011b}", DEF),
    row!(Binary, "{:+#02.5b}", "{:+#02.5b}", DEF),
    row!(Binary, "{:-b}", "{:-b}", DEF),
    row!(Binary, "{:-.5b}", "{:-.5b}", DEF),
    row!(Binary, "{:-9(faint,fg=white,)b}", "{:-9b}", St { f: 7, b: 16, i: 2 }),
    row!(Binary, "{:-10.0b}", "{:-10.0b}", DEF),
    row!(Binary, "{:-0b}", "{:-0b}", DEF),
    row!(Binary, "{:-0.4b}", "{:-0.4b}", DEF),
    row!(Binary, "{:-011(faint,fg=white,)b}", "{:-011b}", St { f: 7, b: 16, i: 2 }),
    row!(Binary, "{:-08.3(faint,fg=white,)b}", "{:-08.3b}", St { f: 7, b: 16, i: 2 }),
    row!(Binary, "{:-#b}", "{:-#b}", DEF),
    row!(Binary, "{:-#.5b}", "{:-#.5b}", DEF),
    row!(Binary, "{:-#6b}", "{:-#6b}", DEF),
    row!(Binary, "{:-#3.0b}", "{:-#3.0b}", DEF),
    row!(Binary, "{:-#0b}", "{:-#0b}", DEF),
    row!(Binary, "{:-#0.0b}", "{:-#0.0b}", DEF),
    row!(Binary, "{:-#01b}", "{:-#01b}", DEF),
    row!(Binary, "{:-#011.3b}", "{:-#011.3b}", DEF),
    row!(Binary, "{:<b}", "{:<b}", DEF),
    row!(Binary, "{:<.3(fg=red)b}", "{:<.3b}", St { f: 1, b: 16, i: 0 }),
    row!(Binary, "{: <11b}", "{: <11b}", DEF),
    row!(Binary, "{:<3.3b}", "{:<3.3b}", DEF),
    row!(Binary, "{: <0b}", "{: <0b}", DEF),
    row!(Binary, "{:<0.1b}", "{:<0.1b}", DEF),
    row!(Binary, "{:<03b}", "{:<03b}", DEF),
    row!(Binary, "{:<06.5b}", "{:<06.5b}", DEF),
    row!(Binary, "{:<#b}", "{:<#b}", DEF),
    row!(Binary, "{:<#.5b}", "{:<#.5b}", DEF),
    row!(Binary, "{:<#6b}", "{:<#6b}", DEF),
    row!(Binary, "{: <#2.5b}", "{: <#2.5b}", DEF),
    row!(Binary, "{: <#0b}", "{: <#0b}", DEF),
    row!(Binary, "{: <#0.5(bg=brightgreen,bold)b}", "{: <#0.5b}", St { f: 16, b: 10, i: 1 }),
    row!(Binary, "{:<#02b}", "{:<#02b}", DEF),
    row!(Binary, "{:<#011.0b}", "{:<#011.0b}", DEF),
    row!(Binary, "{:<+b}", "{:<+b}", DEF),
    row!(Binary, "{: <+.3(fg=red)b}", "{: <+.3b}", St { f: 1, b: 16, i: 0 }),
    row!(Binary, "{: <+9b}", "{: <+9b}", DEF),
    row!(Binary, "{:<+1.5(fg=red)b}", "{:<+1.5b}", St { f: 1, b: 16, i: 0 }),
    row!(Binary, "{:<+0(fg=red)b}", "{:<+0b}", St { f: 1, b: 16, i: 0 }),
    row!(Binary, "{:<+0.0b}", "{:<+0.0b}", DEF),
    row!(Binary, "{:<+011b}", "{:<+011b}", DEF),
    row!(Binary, "{:<+012.4b}", "{:<+012.4b}", DEF),
    row!(Binary, "{:<+#b}", "{:<+#b}", DEF),
    row!(Binary, "{:<+#.3b}", "{:<+#.3b}", DEF),
    row!(Binary, "{: <+#7b}", "{: <+#7b}", DEF),
    row!(Binary, "{:<+#6.3b}", "{:<+#6.3b}", DEF),
    row!(Binary, "{:<+#0b}", "{:<+#0b}", DEF),
    row!(Binary, "{: <+#0.3b}", "{: <+#0.3b}", DEF),
    row!(Binary, "{:<+#010b}", "{:<+#010b}", DEF),
    row!(Binary, "{:<+#05.1b}", "{:<+#05.1b}", DEF),
    row!(Binary, "{:<-b}", "{:<-b}", DEF),
    row!(Binary, "{:<-.2b}", "{:<-.2b}", DEF),
    row!(Binary, "{: <-2b}", "{: <-2b}", DEF),
    row!(Binary, "{:<-12.1b}", "{:<-12.1b}", DEF),
    row!(Binary, "{: <-0b}", "{: <-0b}", DEF),
    row!(Binary, "{: <-0.3(faint,fg=white,)b}", "{: <-0.3b}", St { f: 7, b: 16, i: 2 }),
    row!(Binary, "{: <-01b}", "{: <-01b}", DEF),
    row!(Binary, "{: <-01.5(faint,fg=white,)b}", "{: <-01.5b}", St { f: 7, b: 16, i: 2 }),
    row!(Binary, "{:<-#b}", "{:<-#b}", DEF),
    row!(Binary, "{: <-#.4b}", "{: <-#.4b}", DEF),
    row!(Binary, "{: <-#3b}", "{: <-#3b}", DEF),
    row!(Binary, "{:<-#6.2(fg=red)b}", "{:<-#6.2b}", St { f: 1, b: 16, i: 0 }),
    row!(Binary, "{:<-#0b}", "{:<-#0b}", DEF),
    row!(Binary, "{: <-#0.3b}", "{: <-#0.3b}", DEF),
    row!(Binary, "{:<-#010(fg=red)b}", "{:<-#010b}", St { f: 1, b: 16, i: 0 }),
    row!(Binary, "{:<-#010.4b}", "{:<-#010.4b}", DEF),
    row!(Binary, "{:^b}", "{:^b}", DEF),
    row!(Binary, "{:^.2b}", "{:^.2b}", DEF),
    row!(Binary, "{: ^3(fg=red)b}", "{: ^3b}", St { f: 1, b: 16, i: 0 }),
    row!(Binary, "{:^8.4b}", "{:^8.4b}", DEF),
    row!(Binary, "{:^0b}", "{:^0b}", DEF),
    row!(Binary, "{:^0.1(bg=brightgreen,bold)b}", "{:^0.1b}", St { f: 16, b: 10, i: 1 }),
    row!(Binary, "{: ^01(bg=brightgreen,bold)b}", "{: ^01b}", St { f: 16, b: 10, i: 1 }),
    row!(Binary, "{:^010.1b}", "{:^010.1b}", DEF),
    row!(Binary, "{:^#b}", "{:^#b}", DEF),
    row!(Binary, "{: ^#.2(faint,fg=white,)b}", "{: ^#.2b}", St { f: 7, b: 16, i: 2 }),
    row!(Binary, "{: ^#11(bg=brightgreen,bold)b}", "{: ^#11b}", St { f: 16, b: 10, i: 1 }),
    row!(Binary, "{:^#9.1b}", "{:^#9.1b}", DEF),
    row!(Binary, "{:^#0b}", "{:^#0b}", DEF),
    row!(Binary, "{: ^#0.0b}", "{: ^#0.0b}", DEF),
    row!(Binary, "{:^#012b}", "{:^#012b}", DEF),
    row!(Binary, "{:^#011.1b}", "{:^#011.1b}", DEF),
    row!(Binary, "{:^+b}", "{:^+b}", DEF),
    row!(Binary, "{:^+.0b}", "{:^+.0b}", DEF),
    row!(Binary, "{:^+8b}", "{:^+8b}", DEF),
    row!(Binary, "{:^+7.1(fg=red)b}", "{:^+7.1b}", St { f: 1, b: 16, i: 0 }),
    row!(Binary, "{:^+0b}", "{:^+0b}", DEF),
    row!(Binary, "{:^+0.0(faint,fg=white,)b}", "{:^+0.0b}", St { f: 7, b: 16, i: 2 }),
    row!(Binary, "{: ^+011(bg=brightgreen,bold)b}", "{: ^+011b}", St { f: 16, b: 10, i: 1 }),
    row!(Binary, "{: ^+09.1b}", "{: ^+09.1b}", DEF),
    row!(Binary, "{: ^+#(bg=brightgreen,bold)b}", "{: ^+#b}", St { f: 16, b: 10, i: 1 }),
    row!(Binary, "{:^+#.2(fg=red)b}", "{:^+#.2b}", St { f: 1, b: 16, i: 0 }),
    row!(Binary, "{:^+#11b}", "{:^+#11b}", DEF),
    row!(Binary, "{: ^+#6.5b}", "{: ^+#6.5b}", DEF),
    row!(Binary, "{: ^+#0(faint,fg=white,)b}", "{: ^+#0b}", St { f: 7, b: 16, i: 2 }),
    row!(Binary, "{: ^+#0.3b}", "{: ^+#0.3b}", DEF),
    row!(Binary, "{:^+#010(fg=red)b}", "{:^+#010b}", St { f: 1, b: 16, i: 0 }),
    row!(Binary, "{:^+#01.4(fg=red)b}", "{:^+#01.4b}", St { f: 1, b: 16, i: 0 }),
    row!(Binary, "{:^-b}", "{:^-b}", DEF),
    row!(Binary, "{:^-.1(bg=brightgreen,bold)b}", "{:^-.1b}", St { f: 16, b: 10, i: 1 }),
    row!(Binary, "{:^-10b}", "{:^-10b}", DEF),
    row!(Binary, "{:^-10.1b}", "{:^-10.1b}", DEF),
    row!(Binary, "{: ^-0(faint,fg=white,)b}", "{: ^-0b}", St { f: 7, b: 16, i: 2 }),
    row!(Binary, "{: ^-0.1(faint,fg=white,)b}", "{: ^-0.1b}", St { f: 7, b: 16, i: 2 }),
    row!(Binary, "{: ^-010b}", "{: ^-010b}", DEF),
    row!(Binary, "{: ^-08.3b}", "{: ^-08.3b}", DEF),
    row!(Binary, "{:^-#(bg=brightgreen,bold)b}", "{:^-#b}", St { f: 16, b: 10, i: 1 }),
    row!(Binary, "{:^-#.0b}", "{:^-#.0b}", DEF),
    row!(Binary, "{:^-#5b}", "{:^-#5b}", DEF),
    row!(Binary, "{:^-#5.3b}", "{:^-#5.3b}", DEF),
    row!(Binary, "{:^-#0b}", "{:^-#0b}", DEF),
    row!(Binary, "{:^-#0.0b}", "{:^-#0.0b}", DEF),
    row!(Binary, "{:^-#03(fg=red)b}", "{:^-#03b}", St { f: 1, b: 16, i: 0 }),
    row!(Binary, "{:^-#06.5b}", "{:^-#06.5b}", DEF),
    row!(Binary, "{:>(faint,fg=white,)b}", "{:>b}", St { f: 7, b: 16, i: 2 }),
    row!(Binary, "{:>.0b}", "{:>.0b}", DEF),
    row!(Binary, "{:>1b}", "{:>1b}", DEF),
    row!(Binary, "{:>11.5b}", "{:>11.5b}", DEF),
    row!(Binary, "{:>0b}", "{:>0b}", DEF),
    row!(Binary, "{: >0.0(bg=brightgreen,bold)b}", "{: >0.0b}", St { f: 16, b: 10, i: 1 }),
    row!(Binary, "{:>07b}", "{:>07b}", DEF),
    row!(Binary, "{: >05.1b}", "{: >05.1b}", DEF),
    row!(Binary, "{:>#b}", "{:>#b}", DEF),
    row!(Binary, "{:>#.0b}", "{:>#.0b}", DEF),
    row!(Binary, "{:>#7b}", "{:>#7b}", DEF),
    row!(Binary, "{:>#11.1(faint,fg=white,)b}", "{:>#11.1b}", St { f: 7, b: 16, i: 2 }),
    row!(Binary, "{:>#0b}", "{:>#0b}", DEF),
    row!(Binary, "{:>#0.3b}", "{:>#0.3b}", DEF),
    row!(Binary, "{:>#02(faint,fg=white,)b}", "{:>#02b}", St { f: 7, b: 16, i: 2 }),
    row!(Binary, "{: >#08.4b}", "{: >#08.4b}", DEF),
    row!(Binary, "{: >+b}", "{: >+b}", DEF),
    row!(Binary, "{:>+.5b}", "{:>+.5b}", DEF),
    row!(Binary, "{: >+1b}", "{: >+1b}", DEF),
    row!(Binary, "{:>+6.4b}", "{:>+6.4b}", DEF),
    row!(Binary, "{:>+0(fg=red)b}", "{:>+0b}", St { f: 1, b: 16, i: 0 }),
    row!(Binary, "{: >+0.5b}", "{: >+0.5b}", DEF),
    row!(Binary, "{:>+06(bg=brightgreen,bold)b}", "{:>+06b}", St { f: 16, b: 10, i: 1 }),
    row!(Binary, "{: >+012.4(fg=red)b}", "{: >+012.4b}", St { f: 1, b: 16, i: 0 }),
    row!(Binary, "{:>+#b}", "{:>+#b}", DEF),
    row!(Binary, "{:>+#.1(faint,fg=white,)b}", "{:>+#.1b}", St { f: 7, b: 16, i: 2 }),
    row!(Binary, "{:>+#7b}", "{:>+#7b}", DEF),
    row!(Binary, "{: >+#10.4b}", "{: >+#10.4b}", DEF),
    row!(Binary, "{:>+#0b}", "{:>+#0b}", DEF),
    row!(Binary, "{:>+#0.0b}", "{:>+#0.0b}", DEF),
    row!(Binary, "{:>+#03b}", "{:>+#03b}", DEF),
    row!(Binary, "{:>+#01.1b}", "{:>+#01.1b}", DEF),
    row!(Binary, "{:>-b}", "{:>-b}", DEF),
    row!(Binary, "{: >-.2(fg=red)b}", "{: >-.2b}", St { f: 1, b: 16, i: 0 }),
    row!(Binary, "{: >-2b}", "{: >-2b}", DEF),
    row!(Binary, "{:>-7.4(fg=red)b}", "{:>-7.4b}", St { f: 1, b: 16, i: 0 }),
    row!(Binary, "{: >-0b}", "{: >-0b}", DEF),
    row!(Binary, "{:>-0.5(fg=red)b}", "{:>-0.5b}", St { f: 1, b: 16, i: 0 }),
    row!(Binary, "{:>-03(fg=red)b}", "{:>-03b}", St { f: 1, b: 16, i: 0 }),
    row!(Binary, "{: >-010.1(fg=red)b}", "{: >-010.1b}", St { f: 1, b: 16, i: 0 }),
    row!(Binary, "{:>-#(bg=brightgreen,bold)b}", "{:>-#b}", St { f: 16, b: 10, i: 1 }),
    row!(Binary, "{:>-#.0b}", "{:>-#.0b}", DEF),
    row!(Binary, "{: >-#2(faint,fg=white,)b}", "{: >-#2b}", St { f: 7, b: 16, i: 2 }),
    row!(Binary, "{:>-#2.4b}", "{:>-#2.4b}", DEF),
    row!(Binary, "{: >-#0b}", "{: >-#0b}", DEF),
    row!(Binary, "{:>-#0.3b}", "{:>-#0.3b}", DEF),
    row!(Binary, "{:>-#07b}", "{:>-#07b}", DEF),
    row!(Binary, "{:>-#05.5b}", "{:>-#05.5b}", DEF),
];
pub static T9: &[Row<dyn core::fmt::LowerExp>] = &[
    row!(LowerExp, "{:e}", "{:e}", DEF),
    row!(LowerExp, "{:.1e}", "{:.1e}", DEF),
    row!(LowerExp, "{:12(faint,fg=white,)e}", "{:12e}", St { f: 7, b: 16, i: 2 }),
    row!(LowerExp, "{:5.3e}", "{:5.3e}", DEF),
    row!(LowerExp, "{:0(bg=brightgreen,bold)e}", "{:0e}", St { f: 16, b: 10, i: 1 }),
    row!(LowerExp, "{:0.3e}", "{:0.3e}", DEF),
    row!(LowerExp, "{:02e}", "{:02e}", DEF),
    row!(LowerExp, "{:05.2e}", "{:05.2e}", DEF),
    row!(LowerExp, "{:#e}", "{:#e}", DEF),
    row!(LowerExp, "{:#.2(fg=red)e}", "{:#.2e}", St { f: 1, b: 16, i: 0 }),
    row!(LowerExp, "{:#1e}", "{:#1e}", DEF),
    row!(LowerExp, "{:#12.1(bg=brightgreen,bold)e}", "{:#12.1e}", St { f: 16, b: 10, i: 1 }),
    row!(LowerExp, "{:#0e}", "{:#0e}", DEF),
    row!(LowerExp, "{:#0.1e}", "{:#0.1e}", DEF),
    row!(LowerExp, "{:#07e}", "{:#07e}", DEF),
    row!(LowerExp, "{:#08.1e}", "{:#08.1e}", DEF),
    row!(LowerExp, "{:+e}", "{:+e}", DEF),
    row!(LowerExp, "{:+.0e}", "{:+.0e}", DEF),
    row!(LowerExp, "{:+3(bg=brightgreen,bold)e}", "{:+3e}", St { f: 16, b: 10, i: 1 }),
    row!(LowerExp, "{:+1.2e}", "{:+1.2e}", DEF),
    row!(LowerExp, "{:+0(fg=red)e}", "{:+0e}", St { f: 1, b: 16, i: 0 }),
    row!(LowerExp, "{:+0.3(fg=red)e}", "{:+0.3e}", St { f: 1, b: 16, i: 0 }),
    row!(LowerExp, "{:+011(fg=red)e}", "{:+011e}", St { f: 1, b: 16, i: 0 }),
    row!(LowerExp, "{:+02.2e}", "{:+02.2e}", DEF),
    row!(LowerExp, "{:+#e}", "{:+#e}", DEF),
    row!(LowerExp, "{:+#.0(fg=red)e}", "{:+#.0e}", St { f: 1, b: 16, i: 0 }),
    row!(LowerExp, "{:+#7e}", "{:+#7e}", DEF),
    row!(LowerExp, "{:+#7.0e}", "{:+#7.0e}", DEF),
    row!(LowerExp, "{:+#0e}", "{:+#0e}", DEF),
    row!(LowerExp, "{:+#0.5e}", "{:+#0.5e}", DEF),
    row!(LowerExp, "{:+#010e}", "{:+#010e}", DEF),
    row!(LowerExp, "{:+#09.2e}", "{:+#09.2e}", DEF),
    row!(LowerExp, "{:-e}", "{:-e}", DEF),
    row!(LowerExp, "{:-.4e}", "{:-.4e}", DEF),
    row!(LowerExp, "{:-11e}", "{:-11e}", DEF),
    row!(LowerExp, "{:-12.5(fg=red)e}", "{:-12.5e}", St { f: 1, b: 16, i: 0 }),
    row!(LowerExp, "{:-0e}", "{:-0e}", DEF),
    row!(LowerExp, "{:-0.0e}", "{:-0.0e}", DEF),
    row!(LowerExp, "{:-012e}", "{:-012e}", DEF),
    row!(LowerExp, "{:-09.0(faint,fg=white,)e}", "{:-09.0e}", St { f: 7, b: 16, i: 2 }),
    row!(LowerExp, "{:-#e}", "{:-#e}", DEF),
    row!(LowerExp, "{:-#.0e}", "{:-#.0e}", DEF),
    row!(LowerExp, "{:-#3(fg=red)e}", "{:-#3e}", St { f: 1, b: 16, i: 0 }),
    row!(LowerExp, "{:-#7.5e}", "{:-#7.5e}", DEF),
    row!(LowerExp, "{:-#0(faint,fg=white,)e}", "{:-#0e}", St { f: 7, b: 16, i: 2 }),
    row!(LowerExp, "{:-#0.5e}", "{:-#0.5e}", DEF),
    row!(LowerExp, "{:-#09e}", "{:-#09e}", DEF),
    row!(LowerExp, "{:-#06.0(bg=brightgreen,bold)e}", "{:-#06.0e}", St { f: 16, b: 10, i: 1 }),
    row!(LowerExp, "{:<e}", "{:<e}", DEF),
    row!(LowerExp, "{:<.4e}", "{:<.4e}", DEF),
    row!(LowerExp, "{:<6(faint,fg=white,)e}", "{:<6e}", St { f: 7, b: 16, i: 2 }),
    row!(LowerExp, "{:<6.4e}", "{:<6.4e}", DEF),
    row!(LowerExp, "{:<0e}", "{:<0e}", DEF),
    row!(LowerExp, "{: <0.3e}", "{: <0.3e}", DEF),
    row!(LowerExp, "{:<07e}", "{:<07e}", DEF),
    row!(LowerExp, "{:<011.4e}", "{:<011.4e}", DEF),
    row!(LowerExp, "{:<#(bg=brightgreen,bold)e}", "{:<#e}", St { f: 16, b: 10, i: 1 }),
    row!(LowerExp, "{:<#.0(fg=red)e}", "{:<#.0e}", St { f: 1, b: 16, i: 0 }),
    row!(LowerExp, "{: <#6e}", "{: <#6e}", DEF),
    row!(LowerExp, "{: <#6.2e}", "{: <#6.2e}", DEF),
    row!(LowerExp, "{:<#0e}", "{:<#0e}", DEF),
    row!(LowerExp, "{:<#0.0e}", "{:<#0.0e}", DEF),
    row!(LowerExp, "{:<#09(faint,fg=white,)e}", "{:<#09e}", St { f: 7, b: 16, i: 2 }),
    row!(LowerExp, "{:<#02.3e}", "{:<#02.3e}", DEF),
    row!(LowerExp, "{: <+(faint,fg=white,)e}", "{: <+e}", St { f: 7, b: 16, i: 2 }),
    row!(LowerExp, "{:<+.4e}", "{:<+.4e}", DEF),
    row!(LowerExp, "{:<+7e}", "{:<+7e}", DEF),
    row!(LowerExp, "{:<+2.5e}", "{:<+2.5e}", DEF),
    row!(LowerExp, "{:<+0e}", "{:<+0e}", DEF),
    row!(LowerExp, "{:<+0.1(fg=red)e}", "{:<+0.1e}", St { f: 1, b: 16, i: 0 }),
    row!(LowerExp, "{: <+05e}", "{: <+05e}", DEF),
    row!(LowerExp, "{:<+08.1e}", "{:<+08.1e}", DEF),
    row!(LowerExp, "{: <+#e}", "{: <+#e}", DEF),
    row!(LowerExp, "{: <+#.1(faint,fg=white,)e}", "{: <+#.1e}", St { f: 7, b: 16, i: 2 }),
    row!(LowerExp, "{:<+#1e}", "{:<+#1e}", DEF),
    row!(LowerExp, "{:<+#7.2e}", "{:<+#7.2e}", DEF),
    row!(LowerExp, "{:<+#0(bg=brightgreen,bold)e}", "{:<+#0e}", St { f: 16, b: 10, i: 1 }),
    row!(LowerExp, "{: <+#0.0e}", "{: <+#0.0e}", DEF),
    row!(LowerExp, "{:<+#05e}", "{:<+#05e}", DEF),
    row!(LowerExp, "{: <+#03.4e}", "{: <+#03.4e}", DEF),
    row!(LowerExp, "{:<-(faint,fg=white,)e}", "{:<-e}", St { f: 7, b: 16, i: 2 }),
    row!(LowerExp, "{:<-.4(bg=brightgreen,bold)e}", "{:<-.4e}", St { f: 16, b: 10, i: 1 }),
    row!(LowerExp, "{: <-2e}", "{: <-2e}", DEF),
    row!(LowerExp, "{:<-11.4(faint,fg=white,)e}", "{:<-11.4e}", St { f: 7, b: 16, i: 2 }),
    row!(LowerExp, "{:<-0e}", "{:<-0e}", DEF),
    row!(LowerExp, "{: <-0.3(faint,fg=white,)e}", "{: <-0.3e}", St { f: 7, b: 16, i: 2 }),
    row!(LowerExp, "{:<-012e}", "{:<-012e}", DEF),
    row!(LowerExp, "{:<-07.0e}", "{:<-07.0e}", DEF),
    row!(LowerExp, "{:<-#(bg=brightgreen,bold)e}", "{:<-#e}", St { f: 16, b: 10, i: 1 }),
    row!(LowerExp, "{: <-#.1e}", "{: <-#.1e}", DEF),
    row!(LowerExp, "{: <-#3e}", "{: <-#3e}", DEF),
    row!(LowerExp, "{:<-#12.1e}", "{:<-#12.1e}", DEF),
    row!(LowerExp, "{: <-#0e}", "{: <-#0e}", DEF),
    row!(LowerExp, "{: <-#0.2e}", "{: <-#0.2e}", DEF),
    row!(LowerExp, "{:<-#01e}", "{:<-#01e}", DEF),
    row!(LowerExp, "{: <-#010.3e}", "{: <-#010.3e}", DEF),
    row!(LowerExp, "{:^e}", "{:^e}", DEF),
    row!(LowerExp, "{:^.0e}", "{:^.0e}", DEF),
    row!(LowerExp, "{:^8e}", "{:^8e}", DEF),
    row!(LowerExp, "{:^7.0(bg=brightgreen,bold)e}", "{:^7.0e}", St { f: 16, b: 10, i: 1 }),
    row!(LowerExp, "{:^0e}", "{:^0e}", DEF),
    row!(LowerExp, "{:^0.4e}", "{:^0.4e}", DEF),
    row!(LowerExp, "{:^05e}", "{:^05e}", DEF),
    row!(LowerExp, "{: ^010.0e}", "{: ^010.0e}", DEF),
    row!(LowerExp, "{:^#e}", "{:^#e}", DEF),
    row!(LowerExp, "{: ^#.4(faint,fg=white,)e}", "{: ^#.4e}", St { f: 7, b: 16, i: 2 }),
    row!(LowerExp, "{: ^#5e}", "{: ^#5e}", DEF),
    row!(LowerExp, "{:^#3.4e}", "{:^#3.4e}", DEF),
    row!(LowerExp, "{: ^#0(fg=red)e}", "{: ^#0e}", St { f: 1, b: 16, i: 0 }),
    row!(LowerExp, "{:^#0.4(faint,fg=white,)e}", "{:^#0.4e}", St { f: 7, b: 16, i: 2 }),
    row!(LowerExp, "{:^#010e}", "{:^#010e}", DEF),
    row!(LowerExp, "{:^#011.5e}", "{:^#011.5e}", DEF),
    row!(LowerExp, "{:^+e}", "{:^+e}", DEF),
    row!(LowerExp, "{:^+.4e}", "{:^+.4e}", DEF),
    row!(LowerExp, "{:^+6(fg=red)e}", "{:^+6e}", St { f: 1, b: 16, i: 0 }),
    row!(LowerExp, "{:^+5.5e}", "{:^+5.5e}", DEF),
    row!(LowerExp, "{:^+0e}", "{:^+0e}", DEF),
    row!(LowerExp, "{: ^+0.0e}", "{: ^+0.0e}", DEF),
    row!(LowerExp, "{: ^+07e}", "{: ^+07e}", DEF),
    row!(LowerExp, "{: ^+012.5e}", "{: ^+012.5e}", DEF),
    row!(LowerExp, "{:^+#e}", "{:^+#e}", DEF),
    row!(LowerExp, "{:^+#.4(bg=brightgreen,bold)e}", "{:^+#.4e}", St { f: 16, b: 10, i: 1 }),
    row!(LowerExp, "{:^+#2e}", "{:^+#2e}", DEF),
    row!(LowerExp, "{:^+#10.5e}", "{:^+#10.5e}", DEF),
    row!(LowerExp, "{:^+#0e}", "{:^+#0e}", DEF),
    row!(LowerExp, "{: ^+#0.0e}", "{: ^+#0.0e}", DEF),
    row!(LowerExp, "{:^+#05e}", "{:^+#05e}", DEF),
    row!(LowerExp, "{: ^+#03.5(bg=brightgreen,bold)e}", "{: ^+#03.5e}", St { f: 16, b: 10, i: 1 }),
    row!(LowerExp, "{:^-(fg=red)e}", "{:^-e}", St { f: 1, b: 16, i: 0 }),
    row!(LowerExp, "{:^-.5e}", "{:^-.5e}", DEF),
    row!(LowerExp, "{: ^-10e}", "{: ^-10e}", DEF),
    row!(LowerExp, "{:^-9.5e}", "{:^-9.5e}", DEF),
    row!(LowerExp, "{: ^-0e}", "{: ^-0e}", DEF),
    row!(LowerExp, "{:^-0.4e}", "{:^-0.4e}", DEF),
    row!(LowerExp, "{: ^-012e}", "{: ^-012e}", DEF),
    row!(LowerExp, "{:^-011.5e}", "{:^-011.5e}", DEF),
    row!(LowerExp, "{: ^-#e}", "{: ^-#e}", DEF),
    row!(LowerExp, "{:^-#.2e}", "{:^-#.2e}", DEF),
    row!(LowerExp, "{: ^-#1(fg=red)e}", "{: ^-#1e}", St { f: 1, b: 16, i: 0 }),
    row!(LowerExp, "{: ^-#1.3e}", "{: ^-#1.3e}", DEF),
    row!(LowerExp, "{:^-#0(faint,fg=white,)e}", "{:^-#0e}", St { f: 7, b: 16, i: 2 }),
    row!(LowerExp, "{: ^-#0.5(fg=red)e}", "{: ^-#0.5e}", St { f: 1, b: 16, i: 0 }),
    row!(LowerExp, "{:^-#08e}", "{:^-#08e}", DEF),
    row!(LowerExp, "{: ^-#09.4e}", "{: ^-#09.4e}", DEF),
    row!(LowerExp, "{:>e}", "{:>e}", DEF),
    row!(LowerExp, "{:>.3e}", "{:>.3e}", DEF),
    row!(LowerExp, "{:>1e}", "{:>1e}", DEF),
    row!(LowerExp, "{: >3.0e}", "{: >3.0e}", DEF),
    row!(LowerExp, "{:>0(faint,fg=white,)e}", "{:>0e}", St { f: 7, b: 16, i: 2 }),
    row!(LowerExp, "{:>0.2e}", "{:>0.2e}", DEF),
    row!(LowerExp, "{:>011(faint,fg=white,)e}", "{:>011e}", St { f: 7, b: 16, i: 2 }),
    row!(LowerExp, "{:>012.5e}", "{:>012.5e}", DEF),
    row!(LowerExp, "{:>#e}", "{:>#e}", DEF),
    row!(LowerExp, "{:>#.0(fg=red)e}", "{:>#.0e}", St { f: 1, b: 16, i: 0 }),
    row!(LowerExp, "{: >#6(faint,fg=white,)e}", "{: >#6e}", St { f: 7, b: 16, i: 2 }),
    row!(LowerExp, "{:>#3.4e}", "{:>#3.4e}", DEF),
    row!(LowerExp, "{:>#0(faint,fg=white,)e}", "{:>#0e}", St { f: 7, b: 16, i: 2 }),
    row!(LowerExp, "{: >#0.3(faint,fg=white,)e}", "{: >#0.3e}", St { f: 7, b: 16, i: 2 }),
    row!(LowerExp, "{:>#02e}", "{:>#02e}", DEF),
    row!(LowerExp, "{:>#012.4(fg=red)e}", "{:>#012.4e}", St { f: 1, b: 16, i: 0 }),
    row!(LowerExp, "{:>+e}", "{:>+e}", DEF),
    row!(LowerExp, "{:>+.2e}", "{:>+.2e}", DEF),
    row!(LowerExp, "{: >+9e}", "{: >+9e}", DEF),
    row!(LowerExp, "{:>+3.3e}", "{:>+3.3e}", DEF),
    row!(LowerExp, "{:>+0e}", "{:>+0e}", DEF),
    row!(LowerExp, "{:>+0.2e}", "{:>+0.2e}", DEF),
    row!(LowerExp, "{: >+09e}", "{: >+09e}", DEF),
    row!(LowerExp, "{:>+01.2(faint,fg=white,)e}", "{:>+01.2e}", St { f: 7, b: 16, i: 2 }),
    row!(LowerExp, "{: >+#e}", "{: >+#e}", DEF),
    row!(LowerExp, "{:>+#.1e}", "{:>+#.1e}", DEF),
    row!(LowerExp, "{:>+#9e}", "{:>+#9e}", DEF),
    row!(LowerExp, "{:>+#5.2(bg=brightgreen,bold)e}", "{:>+#5.2e}", St { f: 16, b: 10, i: 1 }),
    row!(LowerExp, "{:>+#0e}", "{:>+#0e}", DEF),
    row!(LowerExp, "{:>+#0.4e}", "{:>+#0.4e}", DEF),
    row!(LowerExp, "{:>+#02e}", "{:>+#02e}", DEF),
    row!(LowerExp, "{:>+#010.1e}", "{:>+#010.1e}", DEF),
    row!(LowerExp, "{:>-e}", "{:>-e}", DEF),
    row!(LowerExp, "{:>-.3e}", "{:>-.3e}", DEF),
    row!(LowerExp, "{:>-12(fg=red)e}", "{:>-12e}", St { f: 1, b: 16, i: 0 }),
    row!(LowerExp, "{:>-6.3e}", "{:>-6.3e}", DEF),
    row!(LowerExp, "{:>-0e}", "{:>-0e}", DEF),
    row!(LowerExp, "{:>-0.2e}", "{:>-0.2e}", DEF),
    row!(LowerExp, "{:>-08e}", "{:>-08e}", DEF),
    row!(LowerExp, "{: >-010.5e}", "{: >-010.5e}", DEF),
    row!(LowerExp, "{: >-#e}", "{: >-#e}", DEF),
    row!(LowerExp, "{: >-#.3(bg=brightgreen,bold)e}", "{: >-#.3e}", St { f: 16, b: 10, i: 1 }),
    row!(LowerExp, "{:>-#12e}", "{:>-#12e}", DEF),
    row!(LowerExp, "{:>-#8.5(fg=red)e}", "{:>-#8.5e}", St { f: 1, b: 16, i: 0 }),
    row!(LowerExp, "{:>-#0e}", "{:>-#0e}", DEF),
    row!(LowerExp, "{:>-#0.0e}", "{:>-#0.0e}", DEF),
    row!(LowerExp, "{:>-#03e}", "{:>-#03e}", DEF),
    row!(LowerExp, "{:>-#06.1e}", "{:>-#06.1e}", DEF),
];
pub static T10: &[Row<dyn core::fmt::UpperExp>] = &[
    row!(UpperExp, "{:(bg=brightgreen,bold)E}", "{:E}", St { f: 16, b: 10, i: 1 }),
    row!(UpperExp, "{:.4E}", "{:.4E}", DEF),
    row!(UpperExp, "{:8(faint,fg=white,)E}", "{:8E}", St { f: 7, b: 16, i: 2 }),
    row!(UpperExp, "{:10.3E}", "{:10.3E}", DEF),
    row!(UpperExp, "{:0(bg=brightgreen,bold)E}", "{:0E}", St { f: 16, b: 10, i: 1 }),
    row!(UpperExp, "{:0.0E}", "{:0.0E}", DEF),
    row!(UpperExp, "{:012E}", "{:012E}", DEF),
    row!(UpperExp, "{:010.3(bg=brightgreen,bold)E}", "{:010.3E}", St { f: 16, b: 10, i: 1 }),
    row!(UpperExp, "{:#E}", "{:#E}", DEF),
    row!(UpperExp, "{:#.1E}", "{:#.1E}", DEF),
    row!(UpperExp, "{:#12(bg=brightgreen,bold)E}", "{:#12E}", St { f: 16, b: 10, i: 1 }),
    row!(UpperExp, "{:#3.2E}", "{:#3.2E}", DEF),
    row!(UpperExp, "{:#0E}", "{:#0E}", DEF),
    row!(UpperExp, "{:#0.5E}", "{:#0.5E}", DEF),
    row!(UpperExp, "{:#011E}", "{:#011E}", DEF),
    row!(UpperExp, "{:#02.5(bg=brightgreen,bold)E}", "{:#02.5E}", St { f: 16, b: 10, i: 1 }),
    row!(UpperExp, "{:+E}", "{:+E}", DEF),
    row!(UpperExp, "{:+.2(fg=red)E}", "{:+.2E}", St { f: 1, b: 16, i: 0 }),
    row!(UpperExp, "{:+12(faint,fg=white,)E}", "{:+12E}", St { f: 7, b: 16, i: 2 }),
    row!(UpperExp, "{:+1.1E}", "{:+1.1E}", DEF),
    row!(UpperExp, "{:+0E}", "{:+0E}", DEF),
    row!(UpperExp, "{:+0.0(fg=red)E}", "{:+0.0E}", St { f: 1, b: 16, i: 0 }),
    row!(UpperExp, "{:+07(fg=red)E}", "{:+07E}", St { f: 1, b: 16, i: 0 }),
    row!(UpperExp, "{:+08.1E}", "{:+08.1E}", DEF),
    row!(UpperExp, "{:+#(faint,fg=white,)E}", "{:+#E}", St { f: 7, b: 16, i: 2 }),
    row!(UpperExp, "{:+#.0E}", "{:+#.0E}", DEF),
    row!(UpperExp, "{:+#11E}", "{:+#11E}", DEF),
    row!(UpperExp, "{:+#3.5E}", "{:+#3.5E}", DEF),
    row!(UpperExp, "{:+#0E}", "{:+#0E}", DEF),
    row!(UpperExp, "{:+#0.3E}", "{:+#0.3E}", DEF),
    row!(UpperExp, "{:+#08(faint,fg=white,)E}", "{:+#08E}", St { f: 7, b: 16, i: 2 }),
    row!(UpperExp, "{:+#010.0(bg=brightgreen,bold)E}", "{:+#010.0E}", St { f: 16, b: 10, i: 1 }),
    row!(UpperExp, "{:-E}", "{:-E}", DEF),
    row!(UpperExp, "{:-.1(faint,fg=white,)E}", "{:-.1E}", St { f: 7, b: 16, i: 2 }),
    row!(UpperExp, "{:-2(faint,fg=white,)E}", "{:-2E}", St { f: 7, b: 16, i: 2 }),
    row!(UpperExp, "{:-1.5E}", "{:-1.5E}", DEF),
    row!(UpperExp, "{:-0(faint,fg=white,)E}", "{:-0E}", St { f: 7, b: 16, i: 2 }),
    row!(UpperExp, "{:-0.3E}", "{:-0.3E}", DEF),
    row!(UpperExp, "{:-05(faint,fg=white,)E}", "{:-05E}", St { f: 7, b: 16, i: 2 }),
    row!(UpperExp, "{:-09.2E}", "{:-09.2E}", DEF),
    row!(UpperExp, "{:-#E}", "{:-#E}", DEF),
    row!(UpperExp, "{:-#.5E}", "{:-#.5E}", DEF),
    row!(UpperExp, "{:-#2E}", "{:-#2E}", DEF),
    row!(UpperExp, "{:-#1.1(faint,fg=white,)E}", "{:-#1.1E}", St { f: 7, b: 16, i: 2 }),
    row!(UpperExp, "{:-#0E}", "{:-#0E}", DEF),
    row!(UpperExp, "{:-#0.4(bg=brightgreen,bold)E}", "{:-#0.4E}", St { f: 16, b: 10, i: 1 }),
    row!(UpperExp, "{:-#08E}", "{:-#08E}", DEF),
    row!(UpperExp, "{:-#08.5E}", "{:-#08.5E}", DEF),
    row!(UpperExp, "{:<E}", "{:<E}", DEF),
    row!(UpperExp, "{:<.5(fg=red)E}", "{:<.5E}", St { f: 1, b: 16, i: 0 }),
    row!(UpperExp, "{: <2(faint,fg=white,)E}", "{: <2E}", St { f: 7, b: 16, i: 2 }),
    row!(UpperExp, "{:<6.2E}", "{:<6.2E}", DEF),
    row!(UpperExp, "{:<0E}", "{:<0E}", DEF),
    row!(UpperExp, "{:<0.3E}", "{:<0.3E}", DEF),
    row!(UpperExp, "{:<03E}", "{:<03E}", DEF),
    row!(UpperExp, "{:<01.1E}", "{:<01.1E}", DEF),
    row!(UpperExp, "{:<#E}", "{:<#E}", DEF),
    row!(UpperExp, "{: <#.1E}", "{: <#.1E}", DEF),
    row!(UpperExp, "{:<#6E}", "{:<#6E}", DEF),
    row!(UpperExp, "{:<#12.5E}", "{:<#12.5E}", DEF),
    row!(UpperExp, "{:<#0E}", "{:<#0E}", DEF),
    row!(UpperExp, "{:<#0.2E}", "{:<#0.2E}", DEF),
    row!(UpperExp, "{: <#07E}", "{: <#07E}", DEF),
    row!(UpperExp, "{:<#012.5(bg=brightgreen,bold)E}", "{:<#012.5E}", St { f: 16, b: 10, i: 1 }),
    row!(UpperExp, "{:<+E}", "{:<+E}", DEF),
    row!(UpperExp, "{:<+.1E}", "{:<+.1E}", DEF),
    row!(UpperExp, "{:<+8E}", "{:<+8E}", DEF),
    row!(UpperExp, "{:<+9.2(faint,fg=white,)E}", "{:<+9.2E}", St { f: 7, b: 16, i: 2 }),
    row!(UpperExp, "{:<+0E}", "{:<+0E}", DEF),
    row!(UpperExp, "{:<+0.5(bg=brightgreen,bold)E}", "{:<+0.5E}", St { f: 16, b: 10, i: 1 }),
    row!(UpperExp, "{: <+010E}", "{: <+010E}", DEF),
    row!(UpperExp, "{: <+08.2E}", "{: <+08.2E}", DEF),
    row!(UpperExp, "{:<+#(bg=brightgreen,bold)E}", "{:<+#E}", St { f: 16, b: 10, i: 1 }),
    row!(UpperExp, "{: <+#.4E}", "{: <+#.4E}", DEF),
    row!(UpperExp, "{:<+#10E}", "{:<+#10E}", DEF),
    row!(UpperExp, "{:<+#10.2E}", "{:<+#10.2E}", DEF),
    row!(UpperExp, "{: <+#0E}", "{: <+#0E}", DEF),
    row!(UpperExp, "{:<+#0.0E}", "{:<+#0.0E}", DEF),
    row!(UpperExp, "{:<+#08E}", "{:<+#08E}", DEF),
    row!(UpperExp, "{:<+#06.5(bg=brightgreen,bold)E}", "{:<+#06.5E}", St { f: 16, b: 10, i: 1 }),
    row!(UpperExp, "{: <-E}", "{: <-E}", DEF),
    row!(UpperExp, "{:<-.4E}", "{:<-.4E}", DEF),
    row!(UpperExp, "{:<-3E}", "{:<-3E}", DEF),
    row!(UpperExp, "{: <-12.2E}", "{: <-12.2E}", DEF),
    row!(UpperExp, "{: <-0E}", "{: <-0E}", DEF),
    row!(UpperExp, "{:<-0.1E}", "{:<-0.1E}", DEF),
    row!(UpperExp, "{: <-011E}", "{: <-011E}", DEF),
    row!(UpperExp, "{:<-09.4(fg=red)E}", "{:<-09.4E}", St { f: 1, b: 16, i: 0 }),
    row!(UpperExp, "{:<-#E}", "{:<-#E}", DEF),
    row!(UpperExp, "{:<-#.4E}", "{:<-#.4E}", DEF),
    row!(UpperExp, "{:<-#11E}", "{:<-#11E}", DEF),
    row!(UpperExp, "{:<-#2.2E}", "{:<-#2.2E}", DEF),
    row!(UpperExp, "{:<-#0E}", "{:<-#0E}", DEF),
    row!(UpperExp, "{:<-#0.1E}", "{:<-#0.1E}", DEF),
    row!(UpperExp, "{: <-#03E}", "{: <-#03E}", DEF),
    row!(UpperExp, "{:<-#012.3E}", "{:<-#012.3E}", DEF),
    row!(UpperExp, "{: ^(fg=red)E}", "{: ^E}", St { f: 1, b: 16, i: 0 }),
    row!(UpperExp, "{:^.0E}", "{:^.0E}", DEF),
    row!(UpperExp, "{:^11E}", "{:^11E}", DEF),
    row!(UpperExp, "{:^1.4E}", "{:^1.4E}", DEF),
    row!(UpperExp, "{: ^0E}", "{: ^0E}", DEF),
    row!(UpperExp, "{:^0.4E}", "{:^0.4E}", DEF),
    row!(UpperExp, "{:^012E}", "{:^012E}", DEF),
    row!(UpperExp, "{: ^08.2E}", "{: ^08.2E}", DEF),
    row!(UpperExp, "{: ^#E}", "{: ^#E}", DEF),
    row!(UpperExp, "{:^#.1E}", "{:^#.1E}", DEF),
    row!(UpperExp, "{: ^#10(faint,fg=white,)E}", "{: ^#10E}", St { f: 7, b: 16, i: 2 }),
    row!(UpperExp, "{: ^#2.2E}", "{: ^#2.2E}", DEF),
    row!(UpperExp, "{:^#0E}", "{:^#0E}", DEF),
    row!(UpperExp, "{:^#0.5(fg=red)E}", "{:^#0.5E}", St { f: 1, b: 16, i: 0 }),
    row!(UpperExp, "{:^#03E}", "{:^#03E}", DEF),
    row!(UpperExp, "{:^#05.1E}", "{:^#05.1E}", DEF),
    row!(UpperExp, "{:^+(faint,fg=white,)E}", "{:^+E}", St { f: 7, b: 16, i: 2 }),
    row!(UpperExp, "{:^+.4E}", "{:^+.4E}", DEF),
    row!(UpperExp, "{:^+10E}", "{:^+10E}", DEF),
    row!(UpperExp, "{:^+6.3E}", "{:^+6.3E}", DEF),
    row!(UpperExp, "{:^+0E}", "{:^+0E}", DEF),
    row!(UpperExp, "{:^+0.3E}", "{:^+0.3E}", DEF),
    row!(UpperExp, "{: ^+012E}", "{: ^+012E}", DEF),
    row!(UpperExp, "{: ^+01.2(faint,fg=white,)E}", "{: ^+01.2E}", St { f: 7, b: 16, i: 2 }),
    row!(UpperExp, "{:^+#(fg=red)E}", "{:^+#E}", St { f: 1, b: 16, i: 0 }),
    row!(UpperExp, "{:^+#.5E}", "{:^+#.5E}", DEF),
    row!(UpperExp, "{:^+#2E}", "{:^+#2E}", DEF),
    row!(UpperExp, "{:^+#10.2(faint,fg=white,)E}", "{:^+#10.2E}", St { f: 7, b: 16, i: 2 }),
    row!(UpperExp, "{:^+#0E}", "{:^+#0E}", DEF),
    row!(UpperExp, "{: ^+#0.2E}", "{: ^+#0.2E}", DEF),
    row!(UpperExp, "{:^+#010E}", "{:^+#010E}", DEF),
    row!(UpperExp, "{:^+#05.5E}", "{:^+#05.5E}", DEF),
    row!(UpperExp, "{: ^-E}", "{: ^-E}", DEF),
    row!(UpperExp, "{:^-.4E}", "{:^-.4E}", DEF),
    row!(UpperExp, "{:^-9E}", "{:^-9E}", DEF),
    row!(UpperExp, "{:^-12.1E}", "{:^-12.1E}", DEF),
    row!(UpperExp, "{:^-0E}", "{:^-0E}", DEF),
    row!(UpperExp, "{:^-0.4E}", "{:^-0.4E}", DEF),
    row!(UpperExp, "{:^-02(bg=brightgreen,bold)E}", "{:^-02E}", St { f: 16, b: 10, i: 1 }),
    row!(UpperExp, "{:^-03.3(faint,fg=white,)E}", "{:^-03.3E}", St { f: 7, b: 16, i: 2 }),
    row!(UpperExp, "{:^-#E}", "{:^-#E}", DEF),
    row!(UpperExp, "{:^-#.4E}", "{:^-#.4E}", DEF),
    row!(UpperExp, "{:^-#6E}", "{:^-#6E}", DEF),
    row!(UpperExp, "{:^-#1.5E}", "{:^-#1.5E}", DEF),
    row!(UpperExp, "{: ^-#0E}", "{: ^-#0E}", DEF),
    row!(UpperExp, "{: ^-#0.1(faint,fg=white,)E}", "{: ^-#0.1E}", St { f: 7, b: 16, i: 2 }),
    row!(UpperExp, "{:^-#08E}", "{:^-#08E}", DEF),
    row!(UpperExp, "{:^-#05.4E}", "{:^-#05.4E}", DEF),
    row!(UpperExp, "{:>(faint,fg=white,)E}", "{:>E}", St { f: 7, b: 16, i: 2 }),
    row!(UpperExp, "{: >.2E}", "{: >.2E}", DEF),
    row!(UpperExp, "{:>6(bg=brightgreen,bold)E}", "{:>6E}", St { f: 16, b: 10, i: 1 }),
    row!(UpperExp, "{: >8.1E}", "{: >8.1E}", DEF),
    row!(UpperExp, "{:>0E}", "{:>0E}", DEF),
    row!(UpperExp, "{: >0.3(fg=red)E}", "{: >0.3E}", St { f: 1, b: 16, i: 0 }),
    row!(UpperExp, "{:>012(bg=brightgreen,bold)E}", "{:>012E}", St { f: 16, b: 10, i: 1 }),
    row!(UpperExp, "{: >06.1E}", "{: >06.1E}", DEF),
    row!(UpperExp, "{:>#E}", "{:>#E}", DEF),
    row!(UpperExp, "{:>#.0(bg=brightgreen,bold)E}", "{:>#.0E}", St { f: 16, b: 10, i: 1 }),
    row!(UpperExp, "{:>#1E}", "{:>#1E}", DEF),
    row!(UpperExp, "{:>#11.2(fg=red)E}", "{:>#11.2E}", St { f: 1, b: 16, i: 0 }),
    row!(UpperExp, "{:>#0E}", "{:>#0E}", DEF),
    row!(UpperExp, "{: >#0.4E}", "{: >#0.4E}", DEF),
    row!(UpperExp, "{:>#09(bg=brightgreen,bold)E}", "{:>#09E}", St { f: 16, b: 10, i: 1 }),
    row!(UpperExp, "{:>#06.2(fg=red)E}", "{:>#06.2E}", St { f: 1, b: 16, i: 0 }),
    row!(UpperExp, "{:>+(bg=brightgreen,bold)E}", "{:>+E}", St { f: 16, b: 10, i: 1 }),
    row!(UpperExp, "{:>+.2E}", "{:>+.2E}", DEF),
    row!(UpperExp, "{:>+10E}", "{:>+10E}", DEF),
    row!(UpperExp, "{: >+11.3E}", "{: >+11.3E}", DEF),
    row!(UpperExp, "{:>+0E}", "{:>+0E}", DEF),
    row!(UpperExp, "{:>+0.1(bg=brightgreen,bold)E}", "{:>+0.1E}", St { f: 16, b: 10, i: 1 }),
    row!(UpperExp, "{: >+010E}", "{: >+010E}", DEF),
    row!(UpperExp, "{: >+011.0E}", "{: >+011.0E}", DEF),
    row!(UpperExp, "{: >+#(bg=brightgreen,bold)E}", "{: >+#E}", St { f: 16, b: 10, i: 1 }),
    row!(UpperExp, "{:>+#.2E}", "{:>+#.2E}", DEF),
    row!(UpperExp, "{:>+#3E}", "{:>+#3E}", DEF),
    row!(UpperExp, "{: >+#9.5(bg=brightgreen,bold)E}", "{: >+#9.5E}", St { f: 16, b: 10, i: 1 }),
    row!(UpperExp, "{: >+#0(faint,fg=white,)E}", "{: >+#0E}", St { f: 7, b: 16, i: 2 }),
    row!(UpperExp, "{: >+#0.1E}", "{: >+#0.1E}", DEF),
    row!(UpperExp, "{:>+#03E}", "{:>+#03E}", DEF),
    row!(UpperExp, "{:>+#01.2E}", "{:>+#01.2E}", DEF),
    row!(UpperExp, "{:>-E}", "{:>-E}", DEF),
    row!(UpperExp, "{: >-.1E}", "{: >-.1E}", DEF),
    row!(UpperExp, "{:>-8E}", "{:>-8E}", DEF),
    row!(UpperExp, "{: >-11.2(bg=brightgreen,bold)E}", "{: >-11.2E}", St { f: 16, b: 10, i: 1 }),
    row!(UpperExp, "{:>-0E}", "{:>-0E}", DEF),
    row!(UpperExp, "{: >-0.0E}", "{: >-0.0E}", DEF),
    row!(UpperExp, "{: >-03(fg=red)E}", "{: >-03E}", St { f: 1, b: 16, i: 0 }),
    row!(UpperExp, "{: >-09.2(fg=red)E}", "{: >-09.2E}", St { f: 1, b: 16, i: 0 }),
    row!(UpperExp, "{:>-#E}", "{:>-#E}", DEF),
    row!(UpperExp, "{:>-#.4E}", "{:>-#.4E}", DEF),
    row!(UpperExp, "{:>-#9(bg=brightgreen,bold)E}", "{:>-#9E}", St { f: 16, b: 10, i: 1 }),
    row!(UpperExp, "{: >-#11.3E}", "{: >-#11.3E}", DEF),
    row!(UpperExp, "{:>-#0E}", "{:>-#0E}", DEF),
    row!(UpperExp, "{:>-#0.1E}", "{:>-#0.1E}", DEF),
    row!(UpperExp, "{:>-#02(fg=red)E}", "{:>-#02E}", St { f: 1, b: 16, i: 0 }),
    row!(UpperExp, "{: >-#06.1E}", "{: >-#06.1E}", DEF),
];
pub static TRIOS: &[Several] = &[
    several!([0 1 2] "{:(bg=brightgreen,bold)X?}{:<+0(fg=red)E}{:<-#10.1(faint,fg=white,)x}", ("{:X?}", St { f: 16, b: 10, i: 1 }), ("{:<+0E}", St { f: 1, b: 16, i: 0 }), ("{:<-#10.1x}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:<#09(bg=brightgreen,bold)X?}{:(faint,fg=white,)x?}{:(fg=red)X}", ("{:<#09X?}", St { f: 16, b: 10, i: 1 }), ("{:x?}", St { f: 7, b: 16, i: 2 }), ("{:X}", St { f: 1, b: 16, i: 0 })),
    several!([0 1 2] "{: >#0(faint,fg=white,)X?}{:>#01(faint,fg=white,)o}{:>-#0.2x?}", ("{: >#0X?}", St { f: 7, b: 16, i: 2 }), ("{:>#01o}", St { f: 7, b: 16, i: 2 }), ("{:>-#0.2x?}", DEF)),
    several!([0 1 2] "{:(bg=brightgreen,bold)e}{:(fg=red)X}{:>+#2(faint,fg=white,)E}", ("{:e}", St { f: 16, b: 10, i: 1 }), ("{:X}", St { f: 1, b: 16, i: 0 }), ("{:>+#2E}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:^#x}{:>+.0(bg=brightgreen,bold)}{:x?}", ("{:^#x}", DEF), ("{:>+.0}", St { f: 16, b: 10, i: 1 }), ("{:x?}", DEF)),
    several!([0 1 2] "{:^-#2.0e}{:(faint,fg=white,)}{:^-06}", ("{:^-#2.0e}", DEF), ("{:}", St { f: 7, b: 16, i: 2 }), ("{:^-06}", DEF)),
    several!([0 1 2] "{:11.2(fg=red)E}{:(fg=red)o}{:#5.2(fg=red)p}", ("{:11.2E}", St { f: 1, b: 16, i: 0 }), ("{:o}", St { f: 1, b: 16, i: 0 }), ("{:#5.2p}", St { f: 1, b: 16, i: 0 })),
    several!([0 1 2] "{:(bg=brightgreen,bold)E}{:+010?}{:>+(fg=red)p}", ("{:E}", St { f: 16, b: 10, i: 1 }), ("{:+010?}", DEF), ("{:>+p}", St { f: 1, b: 16, i: 0 })),
    several!([0 1 2] "{:(faint,fg=white,)x?}{:(bg=brightgreen,bold)x?}{:(faint,fg=white,)o}", ("{:x?}", St { f: 7, b: 16, i: 2 }), ("{:x?}", St { f: 16, b: 10, i: 1 }), ("{:o}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:^+0.0(bg=brightgreen,bold)}{:#6.1(faint,fg=white,)E}{:b}", ("{:^+0.0}", St { f: 16, b: 10, i: 1 }), ("{:#6.1E}", St { f: 7, b: 16, i: 2 }), ("{:b}", DEF)),
    several!([0 1 2] "{: ^.2(fg=red)o}{:-2(faint,fg=white,)E}{:<03(fg=red)X}", ("{: ^.2o}", St { f: 1, b: 16, i: 0 }), ("{:-2E}", St { f: 7, b: 16, i: 2 }), ("{:<03X}", St { f: 1, b: 16, i: 0 })),
    several!([0 1 2] "{:?}{:E}{:(bg=brightgreen,bold)o}", ("{:?}", DEF), ("{:E}", DEF), ("{:o}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{: <#10.5(fg=red)X?}{:(bg=brightgreen,bold)X?}{:^#011.1(fg=red)}", ("{: <#10.5X?}", St { f: 1, b: 16, i: 0 }), ("{:X?}", St { f: 16, b: 10, i: 1 }), ("{:^#011.1}", St { f: 1, b: 16, i: 0 })),
    several!([0 1 2] "{:+07.4X?}{:#10.4(faint,fg=white,)x?}{:<-2(faint,fg=white,)?}", ("{:+07.4X?}", DEF), ("{:#10.4x?}", St { f: 7, b: 16, i: 2 }), ("{:<-2?}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:-0(bg=brightgreen,bold)p}{:<-(faint,fg=white,)o}{:#.1(bg=brightgreen,bold)p}", ("{:-0p}", St { f: 16, b: 10, i: 1 }), ("{:<-o}", St { f: 7, b: 16, i: 2 }), ("{:#.1p}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{:<+0(bg=brightgreen,bold)b}{:>1(fg=red)b}{:<-3(bg=brightgreen,bold)x?}", ("{:<+0b}", St { f: 16, b: 10, i: 1 }), ("{:>1b}", St { f: 1, b: 16, i: 0 }), ("{:<-3x?}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{:(fg=red)X?}{:(bg=brightgreen,bold)X}{:<01(bg=brightgreen,bold)}", ("{:X?}", St { f: 1, b: 16, i: 0 }), ("{:X}", St { f: 16, b: 10, i: 1 }), ("{:<01}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{:>+0.2(bg=brightgreen,bold)?}{:b}{:(bg=brightgreen,bold)x?}", ("{:>+0.2?}", St { f: 16, b: 10, i: 1 }), ("{:b}", DEF), ("{:x?}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{:(fg=red)p}{:(fg=red)}{:+#0x}", ("{:p}", St { f: 1, b: 16, i: 0 }), ("{:}", St { f: 1, b: 16, i: 0 }), ("{:+#0x}", DEF)),
    several!([0 1 2] "{:?}{:<0.1(fg=red)x}{:+0(bg=brightgreen,bold)?}", ("{:?}", DEF), ("{:<0.1x}", St { f: 1, b: 16, i: 0 }), ("{:+0?}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{:(fg=red)o}{:010(fg=red)x?}{: <-12(bg=brightgreen,bold)?}", ("{:o}", St { f: 1, b: 16, i: 0 }), ("{:010x?}", St { f: 1, b: 16, i: 0 }), ("{: <-12?}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{:+#01.4(faint,fg=white,)E}{:(bg=brightgreen,bold)X?}{:<0(faint,fg=white,)x}", ("{:+#01.4E}", St { f: 7, b: 16, i: 2 }), ("{:X?}", St { f: 16, b: 10, i: 1 }), ("{:<0x}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:(bg=brightgreen,bold)x}{:(faint,fg=white,)x?}{:(faint,fg=white,)o}", ("{:x}", St { f: 16, b: 10, i: 1 }), ("{:x?}", St { f: 7, b: 16, i: 2 }), ("{:o}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:#0(fg=red)x?}{:(fg=red)E}{:X?}", ("{:#0x?}", St { f: 1, b: 16, i: 0 }), ("{:E}", St { f: 1, b: 16, i: 0 }), ("{:X?}", DEF)),
    several!([0 1 2] "{:>-0(bg=brightgreen,bold)p}{:(faint,fg=white,)e}{:<08(bg=brightgreen,bold)X?}", ("{:>-0p}", St { f: 16, b: 10, i: 1 }), ("{:e}", St { f: 7, b: 16, i: 2 }), ("{:<08X?}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{:(fg=red)X?}{: ^-#09x}{:(faint,fg=white,)X}", ("{:X?}", St { f: 1, b: 16, i: 0 }), ("{: ^-#09x}", DEF), ("{:X}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{: <#3.2(fg=red)?}{:<0.3(faint,fg=white,)x}{:10(faint,fg=white,)}", ("{: <#3.2?}", St { f: 1, b: 16, i: 0 }), ("{:<0.3x}", St { f: 7, b: 16, i: 2 }), ("{:10}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:-#(faint,fg=white,)e}{:(bg=brightgreen,bold)x?}{:(faint,fg=white,)p}", ("{:-#e}", St { f: 7, b: 16, i: 2 }), ("{:x?}", St { f: 16, b: 10, i: 1 }), ("{:p}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:#10(fg=red)X?}{:-#.0(bg=brightgreen,bold)o}{:+#0.1(faint,fg=white,)?}", ("{:#10X?}", St { f: 1, b: 16, i: 0 }), ("{:-#.0o}", St { f: 16, b: 10, i: 1 }), ("{:+#0.1?}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{: <+#06.3X}{:>-0(bg=brightgreen,bold)p}{:o}", ("{: <+#06.3X}", DEF), ("{:>-0p}", St { f: 16, b: 10, i: 1 }), ("{:o}", DEF)),
    several!([0 1 2] "{:(bg=brightgreen,bold)x?}{:(faint,fg=white,)X?}{:(fg=red)p}", ("{:x?}", St { f: 16, b: 10, i: 1 }), ("{:X?}", St { f: 7, b: 16, i: 2 }), ("{:p}", St { f: 1, b: 16, i: 0 })),
    several!([0 1 2] "{:b}{:>#0(bg=brightgreen,bold)X}{: ^#0.2(bg=brightgreen,bold)o}", ("{:b}", DEF), ("{:>#0X}", St { f: 16, b: 10, i: 1 }), ("{: ^#0.2o}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{:p}{:+.3(faint,fg=white,)E}{:10(bg=brightgreen,bold)X?}", ("{:p}", DEF), ("{:+.3E}", St { f: 7, b: 16, i: 2 }), ("{:10X?}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{:o}{:<-#011?}{: ^-8(bg=brightgreen,bold)p}", ("{:o}", DEF), ("{:<-#011?}", DEF), ("{: ^-8p}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{:x?}{:-#0?}{: ^+#.4b}", ("{:x?}", DEF), ("{:-#0?}", DEF), ("{: ^+#.4b}", DEF)),
    several!([0 1 2] "{: ^#0.5(fg=red)x}{:^+#(faint,fg=white,)E}{:E}", ("{: ^#0.5x}", St { f: 1, b: 16, i: 0 }), ("{:^+#E}", St { f: 7, b: 16, i: 2 }), ("{:E}", DEF)),
    several!([0 1 2] "{:(faint,fg=white,)e}{:>-.2(bg=brightgreen,bold)}{:X?}", ("{:e}", St { f: 7, b: 16, i: 2 }), ("{:>-.2}", St { f: 16, b: 10, i: 1 }), ("{:X?}", DEF)),
    several!([0 1 2] "{:<06.2(fg=red)X?}{:(bg=brightgreen,bold)o}{:>-0(bg=brightgreen,bold)}", ("{:<06.2X?}", St { f: 1, b: 16, i: 0 }), ("{:o}", St { f: 16, b: 10, i: 1 }), ("{:>-0}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{:8.0(faint,fg=white,)o}{:>+2E}{:^-11.4x}", ("{:8.0o}", St { f: 7, b: 16, i: 2 }), ("{:>+2E}", DEF), ("{:^-11.4x}", DEF)),
    several!([0 1 2] "{:-0.2(faint,fg=white,)x?}{:^+#(bg=brightgreen,bold)X?}{:(bg=brightgreen,bold)X}", ("{:-0.2x?}", St { f: 7, b: 16, i: 2 }), ("{:^+#X?}", St { f: 16, b: 10, i: 1 }), ("{:X}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{:(bg=brightgreen,bold)x?}{:^#2(bg=brightgreen,bold)X?}{:<#5.3x?}", ("{:x?}", St { f: 16, b: 10, i: 1 }), ("{:^#2X?}", St { f: 16, b: 10, i: 1 }), ("{:<#5.3x?}", DEF)),
    several!([0 1 2] "{:(fg=red)}{:02o}{:(fg=red)o}", ("{:}", St { f: 1, b: 16, i: 0 }), ("{:02o}", DEF), ("{:o}", St { f: 1, b: 16, i: 0 })),
    several!([0 1 2] "{:(bg=brightgreen,bold)X?}{: >-#010.0(fg=red)?}{:^+#(bg=brightgreen,bold)p}", ("{:X?}", St { f: 16, b: 10, i: 1 }), ("{: >-#010.0?}", St { f: 1, b: 16, i: 0 }), ("{:^+#p}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{:>0(bg=brightgreen,bold)X?}{:^+#011.0(bg=brightgreen,bold)p}{:(fg=red)E}", ("{:>0X?}", St { f: 16, b: 10, i: 1 }), ("{:^+#011.0p}", St { f: 16, b: 10, i: 1 }), ("{:E}", St { f: 1, b: 16, i: 0 })),
    several!([0 1 2] "{:(bg=brightgreen,bold)X}{:>+03(faint,fg=white,)}{:(faint,fg=white,)b}", ("{:X}", St { f: 16, b: 10, i: 1 }), ("{:>+03}", St { f: 7, b: 16, i: 2 }), ("{:b}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:b}{:(bg=brightgreen,bold)e}{:<-#0(faint,fg=white,)X?}", ("{:b}", DEF), ("{:e}", St { f: 16, b: 10, i: 1 }), ("{:<-#0X?}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:^#0.0(bg=brightgreen,bold)X}{:#11(bg=brightgreen,bold)p}{:(faint,fg=white,)X}", ("{:^#0.0X}", St { f: 16, b: 10, i: 1 }), ("{:#11p}", St { f: 16, b: 10, i: 1 }), ("{:X}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:p}{:(fg=red)e}{:(bg=brightgreen,bold)}", ("{:p}", DEF), ("{:e}", St { f: 1, b: 16, i: 0 }), ("{:}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{:(faint,fg=white,)E}{: >-#3(faint,fg=white,)E}{:(faint,fg=white,)}", ("{:E}", St { f: 7, b: 16, i: 2 }), ("{: >-#3E}", St { f: 7, b: 16, i: 2 }), ("{:}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:^-#2o}{: ^+(bg=brightgreen,bold)X}{:^+0.3(bg=brightgreen,bold)}", ("{:^-#2o}", DEF), ("{: ^+X}", St { f: 16, b: 10, i: 1 }), ("{:^+0.3}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{:(bg=brightgreen,bold)o}{:(fg=red)}{:}", ("{:o}", St { f: 16, b: 10, i: 1 }), ("{:}", St { f: 1, b: 16, i: 0 }), ("{:}", DEF)),
    several!([0 1 2] "{:^+#.1(bg=brightgreen,bold)x?}{:(fg=red)p}{: ^#11.5(faint,fg=white,)x}", ("{:^+#.1x?}", St { f: 16, b: 10, i: 1 }), ("{:p}", St { f: 1, b: 16, i: 0 }), ("{: ^#11.5x}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{: >-#6(fg=red)?}{:>0(bg=brightgreen,bold)X?}{:(faint,fg=white,)}", ("{: >-#6?}", St { f: 1, b: 16, i: 0 }), ("{:>0X?}", St { f: 16, b: 10, i: 1 }), ("{:}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:(fg=red)X?}{:}{:^+#.5(faint,fg=white,)E}", ("{:X?}", St { f: 1, b: 16, i: 0 }), ("{:}", DEF), ("{:^+#.5E}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:>+0(bg=brightgreen,bold)X}{:x?}{:^-10.0(faint,fg=white,)x?}", ("{:>+0X}", St { f: 16, b: 10, i: 1 }), ("{:x?}", DEF), ("{:^-10.0x?}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:(fg=red)X?}{:-#0(bg=brightgreen,bold)x?}{:>+#9(faint,fg=white,)b}", ("{:X?}", St { f: 1, b: 16, i: 0 }), ("{:-#0x?}", St { f: 16, b: 10, i: 1 }), ("{:>+#9b}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:<+02.0(fg=red)b}{:(bg=brightgreen,bold)X?}{:^-08.0}", ("{:<+02.0b}", St { f: 1, b: 16, i: 0 }), ("{:X?}", St { f: 16, b: 10, i: 1 }), ("{:^-08.0}", DEF)),
    several!([0 1 2] "{: <+#1(bg=brightgreen,bold)b}{:^+0X?}{:(fg=red)X?}", ("{: <+#1b}", St { f: 16, b: 10, i: 1 }), ("{:^+0X?}", DEF), ("{:X?}", St { f: 1, b: 16, i: 0 })),
    several!([0 1 2] "{: ^+#0.5(bg=brightgreen,bold)?}{: ^+#01.0(fg=red)o}{:(faint,fg=white,)o}", ("{: ^+#0.5?}", St { f: 16, b: 10, i: 1 }), ("{: ^+#01.0o}", St { f: 1, b: 16, i: 0 }), ("{:o}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:>-#0(faint,fg=white,)E}{:(fg=red)b}{:^-01.5b}", ("{:>-#0E}", St { f: 7, b: 16, i: 2 }), ("{:b}", St { f: 1, b: 16, i: 0 }), ("{:^-01.5b}", DEF)),
    several!([0 1 2] "{:^+#(faint,fg=white,)}{: ^+0.0(faint,fg=white,)p}{:<+#b}", ("{:^+#}", St { f: 7, b: 16, i: 2 }), ("{: ^+0.0p}", St { f: 7, b: 16, i: 2 }), ("{:<+#b}", DEF)),
    several!([0 1 2] "{:}{:(bg=brightgreen,bold)X?}{:+#12.4(bg=brightgreen,bold)E}", ("{:}", DEF), ("{:X?}", St { f: 16, b: 10, i: 1 }), ("{:+#12.4E}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{:>0.1E}{:(bg=brightgreen,bold)X}{:01.1(fg=red)?}", ("{:>0.1E}", DEF), ("{:X}", St { f: 16, b: 10, i: 1 }), ("{:01.1?}", St { f: 1, b: 16, i: 0 })),
    several!([0 1 2] "{:x?}{:(fg=red)?}{:+.3(bg=brightgreen,bold)x?}", ("{:x?}", DEF), ("{:?}", St { f: 1, b: 16, i: 0 }), ("{:+.3x?}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{:(faint,fg=white,)x}{:<#0.1E}{:(fg=red)e}", ("{:x}", St { f: 7, b: 16, i: 2 }), ("{:<#0.1E}", DEF), ("{:e}", St { f: 1, b: 16, i: 0 })),
    several!([0 1 2] "{:11.4(bg=brightgreen,bold)X?}{:(faint,fg=white,)E}{:>#010.5(fg=red)E}", ("{:11.4X?}", St { f: 16, b: 10, i: 1 }), ("{:E}", St { f: 7, b: 16, i: 2 }), ("{:>#010.5E}", St { f: 1, b: 16, i: 0 })),
    several!([0 1 2] "{:#0?}{:(faint,fg=white,)b}{:+#(bg=brightgreen,bold)x}", ("{:#0?}", DEF), ("{:b}", St { f: 7, b: 16, i: 2 }), ("{:+#x}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{:(fg=red)E}{:(fg=red)e}{:(bg=brightgreen,bold)X}", ("{:E}", St { f: 1, b: 16, i: 0 }), ("{:e}", St { f: 1, b: 16, i: 0 }), ("{:X}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{:-#11.1x?}{:b}{:(faint,fg=white,)?}", ("{:-#11.1x?}", DEF), ("{:b}", DEF), ("{:?}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:^+?}{:(faint,fg=white,)o}{:(faint,fg=white,)p}", ("{:^+?}", DEF), ("{:o}", St { f: 7, b: 16, i: 2 }), ("{:p}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:?}{:?}{:3(fg=red)p}", ("{:?}", DEF), ("{:?}", DEF), ("{:3p}", St { f: 1, b: 16, i: 0 })),
    several!([0 1 2] "{:(bg=brightgreen,bold)p}{:>-#010(faint,fg=white,)o}{:(faint,fg=white,)x}", ("{:p}", St { f: 16, b: 10, i: 1 }), ("{:>-#010o}", St { f: 7, b: 16, i: 2 }), ("{:x}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:+#0(faint,fg=white,)e}{:x}{: >+.3(faint,fg=white,)?}", ("{:+#0e}", St { f: 7, b: 16, i: 2 }), ("{:x}", DEF), ("{: >+.3?}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:^+03.2(bg=brightgreen,bold)e}{:>+10.3(faint,fg=white,)e}{:>+#2(bg=brightgreen,bold)b}", ("{:^+03.2e}", St { f: 16, b: 10, i: 1 }), ("{:>+10.3e}", St { f: 7, b: 16, i: 2 }), ("{:>+#2b}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{:(bg=brightgreen,bold)e}{:0.2(bg=brightgreen,bold)p}{:^+010(faint,fg=white,)x?}", ("{:e}", St { f: 16, b: 10, i: 1 }), ("{:0.2p}", St { f: 16, b: 10, i: 1 }), ("{:^+010x?}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:(faint,fg=white,)x?}{:<-#.0(fg=red)}{:<+#01.3(faint,fg=white,)X?}", ("{:x?}", St { f: 7, b: 16, i: 2 }), ("{:<-#.0}", St { f: 1, b: 16, i: 0 }), ("{:<+#01.3X?}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:<+03.1(fg=red)e}{:<-9(bg=brightgreen,bold)X?}{: ^#(bg=brightgreen,bold)?}", ("{:<+03.1e}", St { f: 1, b: 16, i: 0 }), ("{:<-9X?}", St { f: 16, b: 10, i: 1 }), ("{: ^#?}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{: >-#.1(bg=brightgreen,bold)X?}{:?}{:>0o}", ("{: >-#.1X?}", St { f: 16, b: 10, i: 1 }), ("{:?}", DEF), ("{:>0o}", DEF)),
    several!([0 1 2] "{:+.1X}{:(bg=brightgreen,bold)p}{:<+.1(fg=red)o}", ("{:+.1X}", DEF), ("{:p}", St { f: 16, b: 10, i: 1 }), ("{:<+.1o}", St { f: 1, b: 16, i: 0 })),
    several!([0 1 2] "{:?}{:>+#p}{:<-0(fg=red)p}", ("{:?}", DEF), ("{:>+#p}", DEF), ("{:<-0p}", St { f: 1, b: 16, i: 0 })),
    several!([0 1 2] "{:<+.2(faint,fg=white,)o}{:(fg=red)E}{:>(bg=brightgreen,bold)x}", ("{:<+.2o}", St { f: 7, b: 16, i: 2 }), ("{:E}", St { f: 1, b: 16, i: 0 }), ("{:>x}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{:^05.0(fg=red)b}{:(fg=red)}{:(bg=brightgreen,bold)p}", ("{:^05.0b}", St { f: 1, b: 16, i: 0 }), ("{:}", St { f: 1, b: 16, i: 0 }), ("{:p}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{:(fg=red)E}{:(bg=brightgreen,bold)}{:(fg=red)b}", ("{:E}", St { f: 1, b: 16, i: 0 }), ("{:}", St { f: 16, b: 10, i: 1 }), ("{:b}", St { f: 1, b: 16, i: 0 })),
    several!([0 1 2] "{:(fg=red)p}{:>0e}{:(bg=brightgreen,bold)E}", ("{:p}", St { f: 1, b: 16, i: 0 }), ("{:>0e}", DEF), ("{:E}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{:(fg=red)o}{:(faint,fg=white,)e}{:>-0(fg=red)x}", ("{:o}", St { f: 1, b: 16, i: 0 }), ("{:e}", St { f: 7, b: 16, i: 2 }), ("{:>-0x}", St { f: 1, b: 16, i: 0 })),
    several!([0 1 2] "{: >#5.2(bg=brightgreen,bold)p}{:(bg=brightgreen,bold)?}{: >(fg=red)e}", ("{: >#5.2p}", St { f: 16, b: 10, i: 1 }), ("{:?}", St { f: 16, b: 10, i: 1 }), ("{: >e}", St { f: 1, b: 16, i: 0 })),
    several!([0 1 2] "{: ^+#012(fg=red)}{:(fg=red)}{:^o}", ("{: ^+#012}", St { f: 1, b: 16, i: 0 }), ("{:}", St { f: 1, b: 16, i: 0 }), ("{:^o}", DEF)),
    several!([0 1 2] "{:+0.4(faint,fg=white,)X?}{:(bg=brightgreen,bold)b}{:>-0b}", ("{:+0.4X?}", St { f: 7, b: 16, i: 2 }), ("{:b}", St { f: 16, b: 10, i: 1 }), ("{:>-0b}", DEF)),
    several!([0 1 2] "{:p}{:>-#.4(fg=red)}{: <02(bg=brightgreen,bold)b}", ("{:p}", DEF), ("{:>-#.4}", St { f: 1, b: 16, i: 0 }), ("{: <02b}", St { f: 16, b: 10, i: 1 })),
    several!([0 1 2] "{: ^0.2(fg=red)p}{:(faint,fg=white,)o}{:(faint,fg=white,)X}", ("{: ^0.2p}", St { f: 1, b: 16, i: 0 }), ("{:o}", St { f: 7, b: 16, i: 2 }), ("{:X}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{: ^+#.1(faint,fg=white,)e}{:<+.2(bg=brightgreen,bold)}{:X?}", ("{: ^+#.1e}", St { f: 7, b: 16, i: 2 }), ("{:<+.2}", St { f: 16, b: 10, i: 1 }), ("{:X?}", DEF)),
    several!([0 1 2] "{:^#.0x}{:^+#0(bg=brightgreen,bold)E}{: >+.0(fg=red)x}", ("{:^#.0x}", DEF), ("{:^+#0E}", St { f: 16, b: 10, i: 1 }), ("{: >+.0x}", St { f: 1, b: 16, i: 0 })),
    several!([0 1 2] "{:^#.3(bg=brightgreen,bold)x?}{:<#3.3(faint,fg=white,)?}{:b}", ("{:^#.3x?}", St { f: 16, b: 10, i: 1 }), ("{:<#3.3?}", St { f: 7, b: 16, i: 2 }), ("{:b}", DEF)),
    several!([0 1 2] "{: <-0.4(bg=brightgreen,bold)}{: ^-0E}{:^-#.5(faint,fg=white,)x?}", ("{: <-0.4}", St { f: 16, b: 10, i: 1 }), ("{: ^-0E}", DEF), ("{:^-#.5x?}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:0(faint,fg=white,)X}{: <#08.1E}{: <+#6(faint,fg=white,)X?}", ("{:0X}", St { f: 7, b: 16, i: 2 }), ("{: <#08.1E}", DEF), ("{: <+#6X?}", St { f: 7, b: 16, i: 2 })),
    several!([0 1 2] "{:(bg=brightgreen,bold)?}{:^(fg=red)X}{:^0.3E}", ("{:?}", St { f: 16, b: 10, i: 1 }), ("{:^X}", St { f: 1, b: 16, i: 0 }), ("{:^0.3E}", DEF)),
];
pub static NESTED: &[Several] = &[
    nested!("{:-011(bg=brightgreen,bold)}{:<0.1s}{:(bg=brightgreen,bold)E}", "{:-#01(bg=brightgreen,bold)E}{:(bg=brightgreen,bold)e}", ("{:-011}", St { f: 16, b: 10, i: 1 }), ("{:-#01E}", St { f: 16, b: 10, i: 1 }), ("{:e}", St { f: 16, b: 10, i: 1 }), ("{:E}", St { f: 16, b: 10, i: 1 })),
    nested!("{:^-#10b}{:^+#0.5s}{:<+03(bg=brightgreen,bold)b}", "{:-06.4(bg=brightgreen,bold)o}{:(bg=brightgreen,bold)X?}", ("{:^-#10b}", DEF), ("{:-06.4o}", St { f: 16, b: 10, i: 1 }), ("{:X?}", St { f: 16, b: 10, i: 1 }), ("{:<+03b}", St { f: 16, b: 10, i: 1 })),
    nested!("{:#(faint,fg=white,)?}{: <+.2s}{: ^-(bg=brightgreen,bold)X}", "{:<+#1.2(bg=brightgreen,bold)e}{:(faint,fg=white,)E}", ("{:#?}", St { f: 7, b: 16, i: 2 }), ("{:<+#1.2e}", St { f: 16, b: 10, i: 1 }), ("{:E}", St { f: 7, b: 16, i: 2 }), ("{: ^-X}", St { f: 16, b: 10, i: 1 })),
    nested!("{:(fg=red)?}{:<012.3s}{:-1p}", "{:^+#2.5(bg=brightgreen,bold)E}{:(fg=red)x}", ("{:?}", St { f: 1, b: 16, i: 0 }), ("{:^+#2.5E}", St { f: 16, b: 10, i: 1 }), ("{:x}", St { f: 1, b: 16, i: 0 }), ("{:-1p}", DEF)),
    nested!("{:(fg=red)X}{: >+s}{:^-0.3x?}", "{:-6.4(faint,fg=white,)e}{:^3(fg=red)x}", ("{:X}", St { f: 1, b: 16, i: 0 }), ("{:-6.4e}", St { f: 7, b: 16, i: 2 }), ("{:^3x}", St { f: 1, b: 16, i: 0 }), ("{:^-0.3x?}", DEF)),
    nested!("{:<-8.2(faint,fg=white,)E}{:^+6.0s}{:(fg=red)X?}", "{:#.5(faint,fg=white,)p}{:(bg=brightgreen,bold)x?}", ("{:<-8.2E}", St { f: 7, b: 16, i: 2 }), ("{:#.5p}", St { f: 7, b: 16, i: 2 }), ("{:x?}", St { f: 16, b: 10, i: 1 }), ("{:X?}", St { f: 1, b: 16, i: 0 })),
    nested!("{:(fg=red)o}{:-.0s}{:(fg=red)?}", "{:(bg=brightgreen,bold)x}{:(fg=red)b}", ("{:o}", St { f: 1, b: 16, i: 0 }), ("{:x}", St { f: 16, b: 10, i: 1 }), ("{:b}", St { f: 1, b: 16, i: 0 }), ("{:?}", St { f: 1, b: 16, i: 0 })),
    nested!("{: >6.0(faint,fg=white,)b}{:-#0.4s}{:(faint,fg=white,)x?}", "{:-(faint,fg=white,)}{:(bg=brightgreen,bold)x}", ("{: >6.0b}", St { f: 7, b: 16, i: 2 }), ("{:-}", St { f: 7, b: 16, i: 2 }), ("{:x}", St { f: 16, b: 10, i: 1 }), ("{:x?}", St { f: 7, b: 16, i: 2 })),
    nested!("{:(fg=red)X?}{:#.2s}{:x?}", "{:>0(fg=red)?}{:(bg=brightgreen,bold)}", ("{:X?}", St { f: 1, b: 16, i: 0 }), ("{:>0?}", St { f: 1, b: 16, i: 0 }), ("{:}", St { f: 16, b: 10, i: 1 }), ("{:x?}", DEF)),
    nested!("{:0(fg=red)e}{:#03s}{:-.0(fg=red)x?}", "{:>-#.1(bg=brightgreen,bold)?}{:-#(fg=red)X}", ("{:0e}", St { f: 1, b: 16, i: 0 }), ("{:>-#.1?}", St { f: 16, b: 10, i: 1 }), ("{:-#X}", St { f: 1, b: 16, i: 0 }), ("{:-.0x?}", St { f: 1, b: 16, i: 0 })),
    nested!("{:#.2(bg=brightgreen,bold)X?}{:^-s}{:^#08.3(bg=brightgreen,bold)E}", "{:(bg=brightgreen,bold)?}{:(bg=brightgreen,bold)e}", ("{:#.2X?}", St { f: 16, b: 10, i: 1 }), ("{:?}", St { f: 16, b: 10, i: 1 }), ("{:e}", St { f: 16, b: 10, i: 1 }), ("{:^#08.3E}", St { f: 16, b: 10, i: 1 })),
    nested!("{:p}{:>#0.2s}{:^0.4(fg=red)o}", "{:>-#3.2(bg=brightgreen,bold)X?}{:<09(bg=brightgreen,bold)X?}", ("{:p}", DEF), ("{:>-#3.2X?}", St { f: 16, b: 10, i: 1 }), ("{:<09X?}", St { f: 16, b: 10, i: 1 }), ("{:^0.4o}", St { f: 1, b: 16, i: 0 })),
    nested!("{:-(faint,fg=white,)x?}{:-#s}{:<0(bg=brightgreen,bold)X?}", "{: >-#(bg=brightgreen,bold)X?}{:-07.2(bg=brightgreen,bold)}", ("{:-x?}", St { f: 7, b: 16, i: 2 }), ("{: >-#X?}", St { f: 16, b: 10, i: 1 }), ("{:-07.2}", St { f: 16, b: 10, i: 1 }), ("{:<0X?}", St { f: 16, b: 10, i: 1 })),
    nested!("{:-#2(bg=brightgreen,bold)p}{:^+#s}{:(bg=brightgreen,bold)x}", "{:x}{: <-#0(bg=brightgreen,bold)x}", ("{:-#2p}", St { f: 16, b: 10, i: 1 }), ("{:x}", DEF), ("{: <-#0x}", St { f: 16, b: 10, i: 1 }), ("{:x}", St { f: 16, b: 10, i: 1 })),
    nested!("{:x}{: ^+#s}{:>-#.4(bg=brightgreen,bold)e}", "{:(fg=red)o}{:0.3o}", ("{:x}", DEF), ("{:o}", St { f: 1, b: 16, i: 0 }), ("{:0.3o}", DEF), ("{:>-#.4e}", St { f: 16, b: 10, i: 1 })),
    nested!("{:(faint,fg=white,)X?}{:^#0.3s}{:+7.0(bg=brightgreen,bold)o}", "{:<-#0X}{:(bg=brightgreen,bold)E}", ("{:X?}", St { f: 7, b: 16, i: 2 }), ("{:<-#0X}", DEF), ("{:E}", St { f: 16, b: 10, i: 1 }), ("{:+7.0o}", St { f: 16, b: 10, i: 1 })),
    nested!("{:X?}{:^09s}{:^#(fg=red)?}", "{:^-0(faint,fg=white,)x}{:(bg=brightgreen,bold)x?}", ("{:X?}", DEF), ("{:^-0x}", St { f: 7, b: 16, i: 2 }), ("{:x?}", St { f: 16, b: 10, i: 1 }), ("{:^#?}", St { f: 1, b: 16, i: 0 })),
    nested!("{:(fg=red)p}{:^-#010s}{:-.5(fg=red)e}", "{:-.0(fg=red)X?}{:>#11(bg=brightgreen,bold)X}", ("{:p}", St { f: 1, b: 16, i: 0 }), ("{:-.0X?}", St { f: 1, b: 16, i: 0 }), ("{:>#11X}", St { f: 16, b: 10, i: 1 }), ("{:-.5e}", St { f: 1, b: 16, i: 0 })),
    nested!("{:(fg=red)x?}{:-0.2s}{:-06(faint,fg=white,)b}", "{:>+(faint,fg=white,)}{:>-0.2x}", ("{:x?}", St { f: 1, b: 16, i: 0 }), ("{:>+}", St { f: 7, b: 16, i: 2 }), ("{:>-0.2x}", DEF), ("{:-06b}", St { f: 7, b: 16, i: 2 })),
    nested!("{:(fg=red)x}{: <0s}{:(fg=red)p}", "{:+#8(fg=red)x?}{: ^+#08(bg=brightgreen,bold)x?}", ("{:x}", St { f: 1, b: 16, i: 0 }), ("{:+#8x?}", St { f: 1, b: 16, i: 0 }), ("{: ^+#08x?}", St { f: 16, b: 10, i: 1 }), ("{:p}", St { f: 1, b: 16, i: 0 })),
    nested!("{:+#09.3o}{:^#0s}{:(fg=red)x?}", "{:<.0(faint,fg=white,)X}{:>+#05E}", ("{:+#09.3o}", DEF), ("{:<.0X}", St { f: 7, b: 16, i: 2 }), ("{:>+#05E}", DEF), ("{:x?}", St { f: 1, b: 16, i: 0 })),
    nested!("{:(faint,fg=white,)x}{:<+02.1s}{:(bg=brightgreen,bold)p}", "{:^010(faint,fg=white,)X?}{:-12e}", ("{:x}", St { f: 7, b: 16, i: 2 }), ("{:^010X?}", St { f: 7, b: 16, i: 2 }), ("{:-12e}", DEF), ("{:p}", St { f: 16, b: 10, i: 1 })),
    nested!("{: ^-#0(faint,fg=white,)}{:^s}{:-#0.3(fg=red)X}", "{:(fg=red)e}{:^-#010.2(fg=red)}", ("{: ^-#0}", St { f: 7, b: 16, i: 2 }), ("{:e}", St { f: 1, b: 16, i: 0 }), ("{:^-#010.2}", St { f: 1, b: 16, i: 0 }), ("{:-#0.3X}", St { f: 1, b: 16, i: 0 })),
    nested!("{:#0.5(faint,fg=white,)?}{:-11s}{: <-#05.2(faint,fg=white,)X}", "{:^+10.4(fg=red)b}{:(faint,fg=white,)?}", ("{:#0.5?}", St { f: 7, b: 16, i: 2 }), ("{:^+10.4b}", St { f: 1, b: 16, i: 0 }), ("{:?}", St { f: 7, b: 16, i: 2 }), ("{: <-#05.2X}", St { f: 7, b: 16, i: 2 })),
    nested!("{:}{:#01.5s}{:(bg=brightgreen,bold)b}", "{:>+#5(faint,fg=white,)E}{:>#03(fg=red)b}", ("{:}", DEF), ("{:>+#5E}", St { f: 7, b: 16, i: 2 }), ("{:>#03b}", St { f: 1, b: 16, i: 0 }), ("{:b}", St { f: 16, b: 10, i: 1 })),
    nested!("{:(fg=red)e}{:>0s}{:(bg=brightgreen,bold)}", "{:(faint,fg=white,)?}{: >-(fg=red)x?}", ("{:e}", St { f: 1, b: 16, i: 0 }), ("{:?}", St { f: 7, b: 16, i: 2 }), ("{: >-x?}", St { f: 1, b: 16, i: 0 }), ("{:}", St { f: 16, b: 10, i: 1 })),
    nested!("{:#03.3(bg=brightgreen,bold)b}{:>-#010s}{:(fg=red)b}", "{:(bg=brightgreen,bold)}{:(faint,fg=white,)p}", ("{:#03.3b}", St { f: 16, b: 10, i: 1 }), ("{:}", St { f: 16, b: 10, i: 1 }), ("{:p}", St { f: 7, b: 16, i: 2 }), ("{:b}", St { f: 1, b: 16, i: 0 })),
    nested!("{: ^#02(bg=brightgreen,bold)E}{:^-.4s}{:^+0.1E}", "{:(fg=red)x?}{:>#03.0(fg=red)x}", ("{: ^#02E}", St { f: 16, b: 10, i: 1 }), ("{:x?}", St { f: 1, b: 16, i: 0 }), ("{:>#03.0x}", St { f: 1, b: 16, i: 0 }), ("{:^+0.1E}", DEF)),
    nested!("{:<-6(bg=brightgreen,bold)?}{:-#0.3s}{:(bg=brightgreen,bold)e}", "{:<+5.5(bg=brightgreen,bold)?}{:0.1?}", ("{:<-6?}", St { f: 16, b: 10, i: 1 }), ("{:<+5.5?}", St { f: 16, b: 10, i: 1 }), ("{:0.1?}", DEF), ("{:e}", St { f: 16, b: 10, i: 1 })),
    nested!("{:.1(fg=red)o}{:>+s}{:>.4?}", "{:(fg=red)X}{:>-08(faint,fg=white,)?}", ("{:.1o}", St { f: 1, b: 16, i: 0 }), ("{:X}", St { f: 1, b: 16, i: 0 }), ("{:>-08?}", St { f: 7, b: 16, i: 2 }), ("{:>.4?}", DEF)),
    nested!("{:^-#011.4X?}{:-#.2s}{:(faint,fg=white,)e}", "{:^-.2(faint,fg=white,)e}{:<-08.1}", ("{:^-#011.4X?}", DEF), ("{:^-.2e}", St { f: 7, b: 16, i: 2 }), ("{:<-08.1}", DEF), ("{:e}", St { f: 7, b: 16, i: 2 })),
    nested!("{:(bg=brightgreen,bold)?}{:0.1s}{:(faint,fg=white,)e}", "{:>#01.5(fg=red)x}{:E}", ("{:?}", St { f: 16, b: 10, i: 1 }), ("{:>#01.5x}", St { f: 1, b: 16, i: 0 }), ("{:E}", DEF), ("{:e}", St { f: 7, b: 16, i: 2 })),
    nested!("{:^+#0.1(fg=red)E}{:>+#s}{:-#.4(bg=brightgreen,bold)X?}", "{:b}{:(fg=red)p}", ("{:^+#0.1E}", St { f: 1, b: 16, i: 0 }), ("{:b}", DEF), ("{:p}", St { f: 1, b: 16, i: 0 }), ("{:-#.4X?}", St { f: 16, b: 10, i: 1 })),
    nested!("{:<#1.5(bg=brightgreen,bold)p}{: <+0.1s}{: <.5X}", "{:(fg=red)o}{:^06.5(bg=brightgreen,bold)X?}", ("{:<#1.5p}", St { f: 16, b: 10, i: 1 }), ("{:o}", St { f: 1, b: 16, i: 0 }), ("{:^06.5X?}", St { f: 16, b: 10, i: 1 }), ("{: <.5X}", DEF)),
    nested!("{:<+#3.3e}{:^+#0s}{:o}", "{:^+#10.3(bg=brightgreen,bold)E}{:e}", ("{:<+#3.3e}", DEF), ("{:^+#10.3E}", St { f: 16, b: 10, i: 1 }), ("{:e}", DEF), ("{:o}", DEF)),
    nested!("{:>#0(faint,fg=white,)}{:^+#2.4s}{:<11.2(bg=brightgreen,bold)p}", "{:+#0.3(fg=red)X?}{:<+02(fg=red)x?}", ("{:>#0}", St { f: 7, b: 16, i: 2 }), ("{:+#0.3X?}", St { f: 1, b: 16, i: 0 }), ("{:<+02x?}", St { f: 1, b: 16, i: 0 }), ("{:<11.2p}", St { f: 16, b: 10, i: 1 })),
    nested!("{:(faint,fg=white,)?}{:<#0s}{:>#2.0(bg=brightgreen,bold)x}", "{:>+09(faint,fg=white,)E}{:(fg=red)?}", ("{:?}", St { f: 7, b: 16, i: 2 }), ("{:>+09E}", St { f: 7, b: 16, i: 2 }), ("{:?}", St { f: 1, b: 16, i: 0 }), ("{:>#2.0x}", St { f: 16, b: 10, i: 1 })),
    nested!("{: ^#07(faint,fg=white,)x}{:<+#0s}{:>+.3(bg=brightgreen,bold)E}", "{:^+1.1(bg=brightgreen,bold)?}{:>08(faint,fg=white,)x?}", ("{: ^#07x}", St { f: 7, b: 16, i: 2 }), ("{:^+1.1?}", St { f: 16, b: 10, i: 1 }), ("{:>08x?}", St { f: 7, b: 16, i: 2 }), ("{:>+.3E}", St { f: 16, b: 10, i: 1 })),
    nested!("{:-#08.1(faint,fg=white,)X?}{:>+.0s}{:(faint,fg=white,)x}", "{:+#07(fg=red)}{:+(faint,fg=white,)X}", ("{:-#08.1X?}", St { f: 7, b: 16, i: 2 }), ("{:+#07}", St { f: 1, b: 16, i: 0 }), ("{:+X}", St { f: 7, b: 16, i: 2 }), ("{:x}", St { f: 7, b: 16, i: 2 })),
    nested!("{:(faint,fg=white,)E}{:+10s}{: ^+.3(faint,fg=white,)X?}", "{: <#8p}{:(bg=brightgreen,bold)x?}", ("{:E}", St { f: 7, b: 16, i: 2 }), ("{: <#8p}", DEF), ("{:x?}", St { f: 16, b: 10, i: 1 }), ("{: ^+.3X?}", St { f: 7, b: 16, i: 2 })),
    nested!("{:<-02p}{:>#.4s}{:>-0.0(bg=brightgreen,bold)X}", "{:^012(faint,fg=white,)p}{:(faint,fg=white,)X}", ("{:<-02p}", DEF), ("{:^012p}", St { f: 7, b: 16, i: 2 }), ("{:X}", St { f: 7, b: 16, i: 2 }), ("{:>-0.0X}", St { f: 16, b: 10, i: 1 })),
    nested!("{:>+#02(faint,fg=white,)b}{: >#s}{:>0.5(fg=red)x?}", "{:+#08.5(bg=brightgreen,bold)X}{:^-09.5b}", ("{:>+#02b}", St { f: 7, b: 16, i: 2 }), ("{:+#08.5X}", St { f: 16, b: 10, i: 1 }), ("{:^-09.5b}", DEF), ("{:>0.5x?}", St { f: 1, b: 16, i: 0 })),
    nested!("{:p}{:>06s}{:^+02x}", "{:(bg=brightgreen,bold)?}{:<+3(fg=red)X?}", ("{:p}", DEF), ("{:?}", St { f: 16, b: 10, i: 1 }), ("{:<+3X?}", St { f: 1, b: 16, i: 0 }), ("{:^+02x}", DEF)),
    nested!("{: >.5(bg=brightgreen,bold)x?}{:<+#11.5s}{:<-07(fg=red)e}", "{:e}{: ^+#10(fg=red)x}", ("{: >.5x?}", St { f: 16, b: 10, i: 1 }), ("{:e}", DEF), ("{: ^+#10x}", St { f: 1, b: 16, i: 0 }), ("{:<-07e}", St { f: 1, b: 16, i: 0 })),
    nested!("{:>+1.5(bg=brightgreen,bold)x?}{: >#0s}{:(bg=brightgreen,bold)b}", "{:<+(faint,fg=white,)p}{:(faint,fg=white,)}", ("{:>+1.5x?}", St { f: 16, b: 10, i: 1 }), ("{:<+p}", St { f: 7, b: 16, i: 2 }), ("{:}", St { f: 7, b: 16, i: 2 }), ("{:b}", St { f: 16, b: 10, i: 1 })),
    nested!("{:x}{:<9s}{:^+#07.4(bg=brightgreen,bold)X}", "{: <#(fg=red)o}{:?}", ("{:x}", DEF), ("{: <#o}", St { f: 1, b: 16, i: 0 }), ("{:?}", DEF), ("{:^+#07.4X}", St { f: 16, b: 10, i: 1 })),
    nested!("{:^.5(fg=red)o}{:<011.4s}{:^06.5x?}", "{: ^+(fg=red)x?}{:(bg=brightgreen,bold)x?}", ("{:^.5o}", St { f: 1, b: 16, i: 0 }), ("{: ^+x?}", St { f: 1, b: 16, i: 0 }), ("{:x?}", St { f: 16, b: 10, i: 1 }), ("{:^06.5x?}", DEF)),
    nested!("{:(faint,fg=white,)p}{: <-#0.1s}{:<-05.3(fg=red)X?}", "{:^-#010(bg=brightgreen,bold)X?}{:(faint,fg=white,)o}", ("{:p}", St { f: 7, b: 16, i: 2 }), ("{:^-#010X?}", St { f: 16, b: 10, i: 1 }), ("{:o}", St { f: 7, b: 16, i: 2 }), ("{:<-05.3X?}", St { f: 1, b: 16, i: 0 })),
    nested!("{:(bg=brightgreen,bold)X?}{:+#0.4s}{:#12.2(faint,fg=white,)e}", "{:#0.2(faint,fg=white,)E}{:+#0.4(fg=red)b}", ("{:X?}", St { f: 16, b: 10, i: 1 }), ("{:#0.2E}", St { f: 7, b: 16, i: 2 }), ("{:+#0.4b}", St { f: 1, b: 16, i: 0 }), ("{:#12.2e}", St { f: 7, b: 16, i: 2 })),
    nested!("{:^0o}{:#010s}{:(fg=red)X?}", "{:+#02.3(fg=red)X?}{:#09(faint,fg=white,)x}", ("{:^0o}", DEF), ("{:+#02.3X?}", St { f: 1, b: 16, i: 0 }), ("{:#09x}", St { f: 7, b: 16, i: 2 }), ("{:X?}", St { f: 1, b: 16, i: 0 })),
    nested!("{:(fg=red)x?}{:<+11.2s}{:E}", "{:>-8.0(faint,fg=white,)X}{:+#12(fg=red)p}", ("{:x?}", St { f: 1, b: 16, i: 0 }), ("{:>-8.0X}", St { f: 7, b: 16, i: 2 }), ("{:+#12p}", St { f: 1, b: 16, i: 0 }), ("{:E}", DEF)),
    nested!("{:(fg=red)e}{:0.0s}{:X?}", "{: >-8(bg=brightgreen,bold)X}{:(faint,fg=white,)X?}", ("{:e}", St { f: 1, b: 16, i: 0 }), ("{: >-8X}", St { f: 16, b: 10, i: 1 }), ("{:X?}", St { f: 7, b: 16, i: 2 }), ("{:X?}", DEF)),
    nested!("{:^-(bg=brightgreen,bold)X}{: <0.4s}{: ^-#7.5(bg=brightgreen,bold)X?}", "{:b}{: ^+0.1(fg=red)X?}", ("{:^-X}", St { f: 16, b: 10, i: 1 }), ("{:b}", DEF), ("{: ^+0.1X?}", St { f: 1, b: 16, i: 0 }), ("{: ^-#7.5X?}", St { f: 16, b: 10, i: 1 })),
    nested!("{:>-0.5(bg=brightgreen,bold)X}{:<+#0.4s}{:>-#.3(bg=brightgreen,bold)X?}", "{:b}{:-#5.3(fg=red)X?}", ("{:>-0.5X}", St { f: 16, b: 10, i: 1 }), ("{:b}", DEF), ("{:-#5.3X?}", St { f: 1, b: 16, i: 0 }), ("{:>-#.3X?}", St { f: 16, b: 10, i: 1 })),
    nested!("{:(faint,fg=white,)X}{:^#8.2s}{:-#8(bg=brightgreen,bold)b}", "{:>-#3.0(faint,fg=white,)b}{:^+(bg=brightgreen,bold)}", ("{:X}", St { f: 7, b: 16, i: 2 }), ("{:>-#3.0b}", St { f: 7, b: 16, i: 2 }), ("{:^+}", St { f: 16, b: 10, i: 1 }), ("{:-#8b}", St { f: 16, b: 10, i: 1 })),
    nested!("{:(faint,fg=white,)b}{:<011s}{: >-#x?}", "{:+0.0(faint,fg=white,)x}{:(bg=brightgreen,bold)o}", ("{:b}", St { f: 7, b: 16, i: 2 }), ("{:+0.0x}", St { f: 7, b: 16, i: 2 }), ("{:o}", St { f: 16, b: 10, i: 1 }), ("{: >-#x?}", DEF)),
    nested!("{:e}{:-0.4s}{:+.2E}", "{:+11(fg=red)X?}{:p}", ("{:e}", DEF), ("{:+11X?}", St { f: 1, b: 16, i: 0 }), ("{:p}", DEF), ("{:+.2E}", DEF)),
    nested!("{:^+02(faint,fg=white,)?}{:+#7s}{:+.3(bg=brightgreen,bold)?}", "{:<07(bg=brightgreen,bold)e}{:}", ("{:^+02?}", St { f: 7, b: 16, i: 2 }), ("{:<07e}", St { f: 16, b: 10, i: 1 }), ("{:}", DEF), ("{:+.3?}", St { f: 16, b: 10, i: 1 })),
    nested!("{: ^-o}{:<+s}{:(fg=red)b}", "{:(fg=red)p}{:(bg=brightgreen,bold)e}", ("{: ^-o}", DEF), ("{:p}", St { f: 1, b: 16, i: 0 }), ("{:e}", St { f: 16, b: 10, i: 1 }), ("{:b}", St { f: 1, b: 16, i: 0 })),
    nested!("{:(faint,fg=white,)x}{:+#5s}{: <#.3(faint,fg=white,)e}", "{:(bg=brightgreen,bold)x?}{:(bg=brightgreen,bold)X?}", ("{:x}", St { f: 7, b: 16, i: 2 }), ("{:x?}", St { f: 16, b: 10, i: 1 }), ("{:X?}", St { f: 16, b: 10, i: 1 }), ("{: <#.3e}", St { f: 7, b: 16, i: 2 })),
    nested!("{: <09e}{:>-0s}{:(faint,fg=white,)b}", "{:(fg=red)X?}{:^-1(faint,fg=white,)X}", ("{: <09e}", DEF), ("{:X?}", St { f: 1, b: 16, i: 0 }), ("{:^-1X}", St { f: 7, b: 16, i: 2 }), ("{:b}", St { f: 7, b: 16, i: 2 })),
    nested!("{:(bg=brightgreen,bold)x}{:.2s}{:<6.3(fg=red)e}", "{:b}{:>-05.5(fg=red)X}", ("{:x}", St { f: 16, b: 10, i: 1 }), ("{:b}", DEF), ("{:>-05.5X}", St { f: 1, b: 16, i: 0 }), ("{:<6.3e}", St { f: 1, b: 16, i: 0 })),
    nested!("{:e}{:+#s}{: ^0.4(bg=brightgreen,bold)X}", "{:>+0(fg=red)x}{:X}", ("{:e}", DEF), ("{:>+0x}", St { f: 1, b: 16, i: 0 }), ("{:X}", DEF), ("{: ^0.4X}", St { f: 16, b: 10, i: 1 })),
    nested!("{:(fg=red)e}{: >#0.4s}{:(faint,fg=white,)e}", "{:^1(bg=brightgreen,bold)e}{:<#05(fg=red)E}", ("{:e}", St { f: 1, b: 16, i: 0 }), ("{:^1e}", St { f: 16, b: 10, i: 1 }), ("{:<#05E}", St { f: 1, b: 16, i: 0 }), ("{:e}", St { f: 7, b: 16, i: 2 })),
];
pub static COUNTS: &[Row<Probe>] = &[
    row!(Probe, "{:10x}", "{:10x}", DEF),
    row!(Probe, "{:.0}", "{:.0}", DEF),
    row!(Probe, "{:>#00.3}", "{:>#00.3}", DEF),
    row!(Probe, "{:^+3.00}", "{:^+3.00}", DEF),
    row!(Probe, "{:000.0003}", "{:000.0003}", DEF),
    row!(Probe, "{: <-0.0}", "{: <-0.0}", DEF),
    row!(Probe, "{:1(fg=red)}", "{:1}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:.1(fg=red)x}", "{:.1x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:>#01.10(fg=red)x}", "{:>#01.10x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:^+10.01(fg=red)x}", "{:^+10.01x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:001.00010(fg=red)x}", "{:001.00010x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{: <-1.1(fg=red)x}", "{: <-1.1x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:10(bg=brightgreen,bold)x}", "{:10x}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:.10(bg=brightgreen,bold)}", "{:.10}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:>#010.73(bg=brightgreen,bold)}", "{:>#010.73}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:^+73.010(bg=brightgreen,bold)}", "{:^+73.010}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:0010.00073(bg=brightgreen,bold)}", "{:0010.00073}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{: <-10.10(bg=brightgreen,bold)}", "{: <-10.10}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:13(faint,fg=white,)}", "{:13}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:.13(faint,fg=white,)x}", "{:.13x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:>#013.94(faint,fg=white,)x}", "{:>#013.94x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:^+94.013(faint,fg=white,)x}", "{:^+94.013x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:0013.00094(faint,fg=white,)x}", "{:0013.00094x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{: <-13.13(faint,fg=white,)x}", "{: <-13.13x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:99x}", "{:99x}", DEF),
    row!(Probe, "{:.99}", "{:.99}", DEF),
    row!(Probe, "{:>#099.696}", "{:>#099.696}", DEF),
    row!(Probe, "{:^+696.099}", "{:^+696.099}", DEF),
    row!(Probe, "{:0099.000696}", "{:0099.000696}", DEF),
    row!(Probe, "{: <-99.99}", "{: <-99.99}", DEF),
    row!(Probe, "{:100(fg=red)}", "{:100}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:.100(fg=red)x}", "{:.100x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:>#0100.703(fg=red)x}", "{:>#0100.703x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:^+703.0100(fg=red)x}", "{:^+703.0100x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:00100.000703(fg=red)x}", "{:00100.000703x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{: <-100.100(fg=red)x}", "{: <-100.100x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:127(bg=brightgreen,bold)x}", "{:127x}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:.127(bg=brightgreen,bold)}", "{:.127}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:>#0127.892(bg=brightgreen,bold)}", "{:>#0127.892}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:^+892.0127(bg=brightgreen,bold)}", "{:^+892.0127}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:00127.000892(bg=brightgreen,bold)}", "{:00127.000892}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{: <-127.127(bg=brightgreen,bold)}", "{: <-127.127}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:128(faint,fg=white,)}", "{:128}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:.128(faint,fg=white,)x}", "{:.128x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:>#0128.899(faint,fg=white,)x}", "{:>#0128.899x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:^+899.0128(faint,fg=white,)x}", "{:^+899.0128x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:00128.000899(faint,fg=white,)x}", "{:00128.000899x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{: <-128.128(faint,fg=white,)x}", "{: <-128.128x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:199x}", "{:199x}", DEF),
    row!(Probe, "{:.199}", "{:.199}", DEF),
    row!(Probe, "{:>#0199.1396}", "{:>#0199.1396}", DEF),
    row!(Probe, "{:^+1396.0199}", "{:^+1396.0199}", DEF),
    row!(Probe, "{:00199.0001396}", "{:00199.0001396}", DEF),
    row!(Probe, "{: <-199.199}", "{: <-199.199}", DEF),
    row!(Probe, "{:255(fg=red)}", "{:255}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:.255(fg=red)x}", "{:.255x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:>#0255.1788(fg=red)x}", "{:>#0255.1788x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:^+1788.0255(fg=red)x}", "{:^+1788.0255x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:00255.0001788(fg=red)x}", "{:00255.0001788x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{: <-255.255(fg=red)x}", "{: <-255.255x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:256(bg=brightgreen,bold)x}", "{:256x}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:.256(bg=brightgreen,bold)}", "{:.256}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:>#0256.1795(bg=brightgreen,bold)}", "{:>#0256.1795}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:^+1795.0256(bg=brightgreen,bold)}", "{:^+1795.0256}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:00256.0001795(bg=brightgreen,bold)}", "{:00256.0001795}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{: <-256.256(bg=brightgreen,bold)}", "{: <-256.256}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:257(faint,fg=white,)}", "{:257}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:.257(faint,fg=white,)x}", "{:.257x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:>#0257.1802(faint,fg=white,)x}", "{:>#0257.1802x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:^+1802.0257(faint,fg=white,)x}", "{:^+1802.0257x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:00257.0001802(faint,fg=white,)x}", "{:00257.0001802x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{: <-257.257(faint,fg=white,)x}", "{: <-257.257x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:300x}", "{:300x}", DEF),
    row!(Probe, "{:.300}", "{:.300}", DEF),
    row!(Probe, "{:>#0300.2103}", "{:>#0300.2103}", DEF),
    row!(Probe, "{:^+2103.0300}", "{:^+2103.0300}", DEF),
    row!(Probe, "{:00300.0002103}", "{:00300.0002103}", DEF),
    row!(Probe, "{: <-300.300}", "{: <-300.300}", DEF),
    row!(Probe, "{:999(fg=red)}", "{:999}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:.999(fg=red)x}", "{:.999x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:>#0999.6996(fg=red)x}", "{:>#0999.6996x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:^+6996.0999(fg=red)x}", "{:^+6996.0999x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:00999.0006996(fg=red)x}", "{:00999.0006996x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{: <-999.999(fg=red)x}", "{: <-999.999x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:1000(bg=brightgreen,bold)x}", "{:1000x}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:.1000(bg=brightgreen,bold)}", "{:.1000}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:>#01000.7003(bg=brightgreen,bold)}", "{:>#01000.7003}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:^+7003.01000(bg=brightgreen,bold)}", "{:^+7003.01000}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:001000.0007003(bg=brightgreen,bold)}", "{:001000.0007003}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{: <-1000.1000(bg=brightgreen,bold)}", "{: <-1000.1000}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:1024(faint,fg=white,)}", "{:1024}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:.1024(faint,fg=white,)x}", "{:.1024x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:>#01024.7171(faint,fg=white,)x}", "{:>#01024.7171x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:^+7171.01024(faint,fg=white,)x}", "{:^+7171.01024x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:001024.0007171(faint,fg=white,)x}", "{:001024.0007171x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{: <-1024.1024(faint,fg=white,)x}", "{: <-1024.1024x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:4095x}", "{:4095x}", DEF),
    row!(Probe, "{:.4095}", "{:.4095}", DEF),
    row!(Probe, "{:>#04095.28668}", "{:>#04095.28668}", DEF),
    row!(Probe, "{:^+28668.04095}", "{:^+28668.04095}", DEF),
    row!(Probe, "{:004095.00028668}", "{:004095.00028668}", DEF),
    row!(Probe, "{: <-4095.4095}", "{: <-4095.4095}", DEF),
    row!(Probe, "{:4096(fg=red)}", "{:4096}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:.4096(fg=red)x}", "{:.4096x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:>#04096.28675(fg=red)x}", "{:>#04096.28675x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:^+28675.04096(fg=red)x}", "{:^+28675.04096x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:004096.00028675(fg=red)x}", "{:004096.00028675x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{: <-4096.4096(fg=red)x}", "{: <-4096.4096x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:9999(bg=brightgreen,bold)x}", "{:9999x}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:.9999(bg=brightgreen,bold)}", "{:.9999}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:>#09999.4460(bg=brightgreen,bold)}", "{:>#09999.4460}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:^+4460.09999(bg=brightgreen,bold)}", "{:^+4460.09999}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:009999.0004460(bg=brightgreen,bold)}", "{:009999.0004460}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{: <-9999.9999(bg=brightgreen,bold)}", "{: <-9999.9999}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:10000(faint,fg=white,)}", "{:10000}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:.10000(faint,fg=white,)x}", "{:.10000x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:>#010000.4467(faint,fg=white,)x}", "{:>#010000.4467x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:^+4467.010000(faint,fg=white,)x}", "{:^+4467.010000x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:0010000.0004467(faint,fg=white,)x}", "{:0010000.0004467x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{: <-10000.10000(faint,fg=white,)x}", "{: <-10000.10000x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:32767x}", "{:32767x}", DEF),
    row!(Probe, "{:.32767}", "{:.32767}", DEF),
    row!(Probe, "{:>#032767.32764}", "{:>#032767.32764}", DEF),
    row!(Probe, "{:^+32764.032767}", "{:^+32764.032767}", DEF),
    row!(Probe, "{:0032767.00032764}", "{:0032767.00032764}", DEF),
    row!(Probe, "{: <-32767.32767}", "{: <-32767.32767}", DEF),
    row!(Probe, "{:32768(fg=red)}", "{:32768}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:.32768(fg=red)x}", "{:.32768x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:>#032768.32771(fg=red)x}", "{:>#032768.32771x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:^+32771.032768(fg=red)x}", "{:^+32771.032768x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:0032768.00032771(fg=red)x}", "{:0032768.00032771x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{: <-32768.32768(fg=red)x}", "{: <-32768.32768x}", St { f: 1, b: 16, i: 0 }),
    row!(Probe, "{:65534(bg=brightgreen,bold)x}", "{:65534x}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:.65534(bg=brightgreen,bold)}", "{:.65534}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:>#065534.65525(bg=brightgreen,bold)}", "{:>#065534.65525}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:^+65525.065534(bg=brightgreen,bold)}", "{:^+65525.065534}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:0065534.00065525(bg=brightgreen,bold)}", "{:0065534.00065525}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{: <-65534.65534(bg=brightgreen,bold)}", "{: <-65534.65534}", St { f: 16, b: 10, i: 1 }),
    row!(Probe, "{:65535(faint,fg=white,)}", "{:65535}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:.65535(faint,fg=white,)x}", "{:.65535x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:>#065535.65532(faint,fg=white,)x}", "{:>#065535.65532x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:^+65532.065535(faint,fg=white,)x}", "{:^+65532.065535x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{:0065535.00065532(faint,fg=white,)x}", "{:0065535.00065532x}", St { f: 7, b: 16, i: 2 }),
    row!(Probe, "{: <-65535.65535(faint,fg=white,)x}", "{: <-65535.65535x}", St { f: 7, b: 16, i: 2 }),
];
