"""Stand-in for the ordinary least squares fit that IMPROVER takes from statsmodels."""
