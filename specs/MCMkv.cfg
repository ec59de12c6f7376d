SPECIFICATION Spec
CONSTANTS MaxTok = 2 Step = 1
VIEW View
INVARIANTS Faithful Tile Prefix Loaded Sought
