"""Definitions of the activation functions (C expressions over x and the constructor parameters)."""
FORMULA = {
    "Sigmoid": "1 / (1 + exp(-x))",
    "Silu": "x / (1 + exp(-x))",
    "ReLu": "x > 0 ? x : 0",
    "LeakyReLu": "x > 0 ? x : alpha * x",
    "TanH": "(exp(2*x) - 1) / (exp(2*x) + 1)",
    "Linear": "x",
    "Exponential": "exp(x)",
    "Logarithm": "log(x)",
    "Clip": "x > max_value ? max_value : (x < min_value ? min_value : x)",
}
# functions with finite limits on both sides: no intermediate result may overflow
SATURATING = {"Sigmoid", "TanH"}
# parameters that may be infinite, and the function then
INFINITE = {
    "Clip": [({"min_value": float("-inf")}, "x > max_value ? max_value : x"), ({"max_value": float("inf")}, "x < min_value ? min_value : x"), ({"min_value": float("-inf"), "max_value": float("inf")}, "x")],
}
