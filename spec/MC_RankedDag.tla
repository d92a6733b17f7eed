---- MODULE MC_RankedDag ----
EXTENDS RankedDag
=============================
