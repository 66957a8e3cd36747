---------------------------- MODULE TermColors -----------------------------
(* The sixteen named colours (eight standard, eight bright; black red green yellow blue magenta cyan white) *)
(* as the documented terminals show them, red green blue from 0 to 255.                                     *)
EXTENDS Integers, Sequences
Terminals == <<"VGA", "CMD", "Terminal.app", "PuTTY", "mlRC", "xterm", "Ubuntu">>
Shades(n) ==
  CASE n = "VGA" -> <<<<0,0,0>>, <<170,0,0>>, <<0,170,0>>, <<170,85,0>>, <<0,0,170>>, <<170,0,170>>, <<0,170,170>>, <<170,170,170>>, <<85,85,85>>, <<255,85,85>>, <<85,255,85>>, <<255,255,85>>, <<85,85,255>>, <<255,85,255>>, <<85,255,255>>, <<255,255,255>>>>
   [] n = "CMD" -> <<<<0,0,0>>, <<128,0,0>>, <<0,128,0>>, <<128,128,0>>, <<0,0,128>>, <<128,0,128>>, <<0,128,128>>, <<192,192,192>>, <<128,128,128>>, <<255,0,0>>, <<0,255,0>>, <<255,255,0>>, <<0,0,255>>, <<255,0,255>>, <<0,255,255>>, <<255,255,255>>>>
   [] n = "Terminal.app" -> <<<<0,0,0>>, <<194,54,33>>, <<37,188,36>>, <<173,173,39>>, <<73,46,225>>, <<211,56,211>>, <<51,187,200>>, <<203,204,205>>, <<129,131,131>>, <<252,57,31>>, <<49,231,34>>, <<234,236,35>>, <<88,51,255>>, <<249,53,248>>, <<20,240,240>>, <<233,235,235>>>>
   [] n = "PuTTY" -> <<<<0,0,0>>, <<187,0,0>>, <<0,187,0>>, <<187,187,0>>, <<0,0,187>>, <<187,0,187>>, <<0,187,187>>, <<187,187,187>>, <<85,85,85>>, <<255,85,85>>, <<85,255,85>>, <<255,255,85>>, <<85,85,255>>, <<255,85,255>>, <<85,255,255>>, <<255,255,255>>>>
   [] n = "mlRC" -> <<<<0,0,0>>, <<127,0,0>>, <<0,147,0>>, <<252,127,0>>, <<0,0,127>>, <<156,0,156>>, <<0,147,147>>, <<210,210,210>>, <<127,127,127>>, <<255,0,0>>, <<0,252,0>>, <<255,255,0>>, <<0,0,252>>, <<255,0,255>>, <<0,255,255>>, <<255,255,255>>>>
   [] n = "xterm" -> <<<<0,0,0>>, <<205,0,0>>, <<0,205,0>>, <<205,205,0>>, <<0,0,238>>, <<205,0,205>>, <<0,205,205>>, <<229,229,229>>, <<127,127,127>>, <<255,0,0>>, <<0,255,0>>, <<255,255,0>>, <<92,92,255>>, <<255,0,255>>, <<0,255,255>>, <<255,255,255>>>>
   [] n = "Ubuntu" -> <<<<1,1,1>>, <<222,56,43>>, <<57,181,74>>, <<255,199,6>>, <<0,111,184>>, <<118,38,113>>, <<44,181,233>>, <<204,204,204>>, <<128,128,128>>, <<255,0,0>>, <<0,255,0>>, <<255,255,0>>, <<0,0,255>>, <<255,0,255>>, <<0,255,255>>, <<255,255,255>>>>
=============================================================================
