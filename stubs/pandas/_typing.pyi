Scalar = int | float | str | bytes | bool
