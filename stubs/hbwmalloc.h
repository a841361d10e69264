// declarations are in the drivers which need them
