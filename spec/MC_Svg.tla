------------------------------- MODULE MC_Svg -------------------------------
EXTENDS SvgBackend, Json
CONSTANT Depth
Short == Len(hist) < Depth
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
