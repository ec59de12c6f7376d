// The command-line tools are linked from their own sources; nothing to add.
