------------------------------ MODULE OrderMC ------------------------------
EXTENDS Order
SmallContents == {<<>>, <<1>>, <<2>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<128, 1>>}
=============================================================================
