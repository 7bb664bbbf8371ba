import c04
