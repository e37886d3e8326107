"""Stand-in for pathos: only its presence matters here (spotpy's stand-in ships work between "processes" by pickling)."""
