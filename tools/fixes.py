"""Writes the 'fixed' records of known_findings.json from /repo's fix commits (run by hand)."""
import json
import os
import subprocess

PROP = """
P38 is_square and is_power
P39 longest_ap|bernoulli_list|largest_divisor
P37 pell_small|pell_minimal|PellEquation
P36 string form of p|negative denominators|quadratic irrational
P35 square roots modulo one|sqrts_mod_p
P34 multiplicative_order
P33 inverse_phi
P31 the probable prime test, and with it factor|factor handles negative|unitary_divisors|divisor_pairs|divisor functions
P32 arithmetic functions accept|carmichael_lambda accepts
P30 cfrac|lehman|fermat
P29 lehmer looks|prime_count counts|pi_table|prime_sum|lmo_bit
P27 probable prime after|prime after zero
P28 prime_range
P25 valuation|integer_sqrt|power_mod|gcd_list|lcm_list
P26 chinese
P22 no items to pack|branch_and_bound_depth_first compares
P23 genetic tsp|logarithm of zero|steepest_ascent
P21 domino tiling
P20 necklaces|partition_list|binomial|Stirling|recurrence
P19 partitions into|exactly one partition|no partitions
P18 combinations|variation|phillips
P17 power series
P16 gcd of polynomials|polynomial gcd
P15 powers of polynomials|zero polynomial|subtracting a number
P14 determinant|matri
P12 number_of_hamiltonian|walks
P10 korman|dsatur|branch_and_bound|greedy_sequential
P11 culberson
P13 Erdos
P07 Steiner
P06 gabow|cheriton|kruskal
P05 bidirectional|floyd_warshall
P04 odd_graph|grid_graph|coprime_pairs|complete_graph
P02 leftist
"""
BASE = "e3f43b0"
TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", BASE + "..HEAD"],
                     capture_output=True, text=True, check=True).stdout.splitlines()
rec = []
for line in log:
    h, msg = line.split(" ", 1)
    assert msg.startswith("fix: "), msg
    for row in PROP.split("\n"):
        if row and any(k in msg for k in row[4:].split("|")):
            rec.append("fixed: property=%s %s %s" % (row[:3], h, msg[5:]))
            break
    else:
        raise SystemExit("no property for " + line)
path = os.path.join(TOP, "known_findings.json")
try:
    old = json.load(open(path))
except FileNotFoundError:
    old = {"findings": []}
old["fixed"] = rec
with open(path, "w") as f:
    json.dump(old, f, indent=1)
    f.write("\n")
print(len(rec))
