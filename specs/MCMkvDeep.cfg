SPECIFICATION Spec
CONSTANTS MaxTok = 3 Step = 1
VIEW View
INVARIANTS Faithful Tile Prefix Loaded Sought
