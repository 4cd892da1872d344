------------------------------ MODULE MCLifeC ------------------------------
EXTENDS MCLife
P2 == <<<<1, 2>>, <<3, 1>>>>
P3 == <<<<1, 2>>, <<3, 1>>, <<2, 3>>>>
L2 == <<-8, -7>>
L3 == <<-5, -7, -8>>
L4 == <<-5, -6, -7, -8>>
T1 == <<1000>>
T2 == <<1000, 2000>>
F2 == <<1, 2>>
F3 == <<3, 1, 2>>
=============================================================================
