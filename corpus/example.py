#! /usr/bin/env python3

# Python test file

CASE_CONSTANT = 100.367e-12

import sys

def func(a):
    return [i + 1 for i in range(a)]

result = 2
print(f"The result is {result}.")

