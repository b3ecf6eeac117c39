{ "isl_set", { { "[n] -> { A[i, j] : 0 <= i <= n and 0 <= j < 7 and (i + j) mod 2 = 0 }", "[m, n] -> { A[i, j] : 2 <= i < m and j = 3; A[i, j] : i = n and j = 4 }" },
	{ "[n] -> { A[i] : 0 <= i <= 10 or i = 12 }", "{ A[i] : 3 <= i <= 11 and i mod 3 = 1 }" },
	{ "{ [A[i] -> B[j]] : 0 <= i <= 5 and j = 2i }", "{ [A[i] -> B[j]] : 3 <= i <= 8 and 0 <= j <= i }" },
	{ "[n] -> { : n > 3 }", "[n, m] -> { : n >= 0 and m = 2n }" },
	{ "[n] -> { A[i, j] : exists (a : 3a <= i + j and 3a >= n and 2i = 5a) and 0 <= i <= 20 }", "{ A[i, j] : i = 2*floor((j)/2) + 1 and 0 <= j <= 9 ; A[i, j] : j = 4 and 0 <= i <= 3 }" },
	{ "{ A[i] : i = 3*floor((i + 2*floor((i)/5))/3) and 0 <= i <= 8 }", "{ A[i] : exists (a, b : i = 4a + 6b and 0 <= a <= 5 and -3 <= b <= a) }" } } },
{ "isl_basic_set", { { "[n] -> { A[i, j] : 0 <= i <= n and 0 <= j < 7 and (i + j) mod 2 = 0 }", "[m, n] -> { A[i, j] : 2 <= i < m and j = 3 }" },
	{ "{ A[i] : 0 <= i <= 10 }", "{ A[i] : 3 <= i <= 11 and i mod 3 = 1 }" },
	{ "{ [A[i] -> B[j]] : 0 <= i <= 5 and 0 <= j <= 2i }", "{ [A[i] -> B[j]] : 3 <= i <= 8 and 0 <= j <= i }" },
	{ "[n] -> { : n > 3 }", "[n, m] -> { : n >= 0 and m = 2n }" },
	{ "[n] -> { A[i, j] : i = 2*floor((j)/2) + n and 0 <= j <= 9 and (i + n) mod 3 = 1 }", "{ A[i, j] : 2i = 3j and 0 <= j <= 12 }" },
	{ "{ A[i] : i = 3*floor((i + 2*floor((i)/5))/3) and 0 <= i <= 30 }", "{ A[i] : 2*floor((i)/3) >= 4 and i <= 20 and i mod 2 = 0 }" } } },
{ "isl_map", { { "[n] -> { A[i, j] -> B[k] : k = i + j and 0 <= i <= n }", "[n] -> { A[i, j] -> B[k] : 0 <= k <= i and j = 1; A[i, j] -> B[k] : k = n and i = j }" },
	{ "[n] -> { A[i] -> A[j] : j = i + 1 and 0 <= i < n }", "{ A[i] -> A[j] : 2j <= i and j >= 0 and i <= 7; A[i] -> A[j] : i = 3 and j = 9 }" },
	{ "{ [A[i] -> B[j]] -> [C[k] -> D[l]] : k = i and 0 <= l <= j and j <= 6 and 0 <= i <= 3 }", "{ [A[i] -> B[j]] -> [C[k] -> D[l]] : k = j and l = i }" },
	{ "{ A[] -> [o] : 0 <= o <= 4 }", "[n] -> { A[] -> [o] : o = n }" },
	{ "{ A[i, j] -> B[k] : k = floor((i + floor((j)/2))/3) and 0 <= i, j <= 9 }", "[n] -> { A[i, j] -> B[k] : exists (a : k = 2a + n and 3a <= i + j) and i = j }" },
	{ "{ A[i] -> A[j] : j = 2*floor((i)/2) and 0 <= i <= 9; A[i] -> A[j] : 2j = i + 7 }", "{ A[i] -> A[j] : exists (a : i = 3a and j = 5a + 1) and 0 <= i <= 20 }" } } },
{ "isl_basic_map", { { "[n] -> { A[i, j] -> B[k] : k = i + j and 0 <= i <= n }", "[n] -> { A[i, j] -> B[k] : 0 <= k <= i and j = 1 and (k + i) mod 3 = 0 }" },
	{ "[n] -> { A[i] -> A[j] : j = i + 1 and 0 <= i < n }", "{ A[i] -> A[j] : 2j <= i and j >= 0 and i <= 7 }" },
	{ "{ [A[i] -> B[j]] -> [C[k] -> D[l]] : k = i and 0 <= l <= j and j <= 6 and 0 <= i <= 3 }", "{ [A[i] -> B[j]] -> [C[k] -> D[l]] : k = j and l = i }" },
	{ "{ A[] -> [o] : 0 <= o <= 4 }", "[n] -> { A[] -> [o] : o = n }" },
	{ "{ A[i, j] -> B[k] : k = floor((i + floor((j)/2))/3) and 0 <= i, j <= 9 }", "[n] -> { A[i, j] -> B[k] : k = 2*floor((i + n)/2) and i = j and i >= 0 }" },
	{ "{ A[i] -> A[j] : j = 2*floor((i)/2) and 0 <= i <= 9 }", "{ A[i] -> A[j] : 5i = 3j and (i + j) mod 4 = 0 and 0 <= i <= 40 }" } } },
{ "isl_aff", { { "[n] -> { A[i, j] -> [(i + 2j + n)] }", "[n] -> { A[i, j] -> [(floor((i)/2) - 3)] }" },
	{ "{ A[i] -> [(2i + 1)] }", "[n] -> { A[i] -> [(n - i)] }" },
	{ "{ [A[i] -> B[j]] -> [(i - j)] }", "{ [A[i] -> B[j]] -> [(7)] }" },
	{ "[n] -> { [(n + 1)] }", "[n] -> { [(3)] }" },
	{ "[n] -> { A[i, j] -> [(floor((i + floor((j)/2))/3) + n)] }", "{ A[i, j] -> [(2*floor((j)/2) - floor((i + j)/5))/3] }" },
	{ "{ A[i] -> [(floor((i + 2*floor((i)/5))/3))] }", "{ A[i] -> [(floor((2i)/5) - floor((i)/2))] }" } } },
{ "isl_pw_aff", { { "[n] -> { A[i, j] -> [(i + 2j + n)] : i > 3; A[i, j] -> [(j)] : i <= 3 }", "[n] -> { A[i, j] -> [(floor((i)/2) - 3)] : j >= n }" },
	{ "{ A[i] -> [(2i + 1)] : i >= 0 }", "[n] -> { A[i] -> [(n - i)] : i < n; A[i] -> [(i - n)] : i >= n }" },
	{ "{ [A[i] -> B[j]] -> [(i - j)] : i >= j }", "{ [A[i] -> B[j]] -> [(7)] }" },
	{ "[n] -> { [(n + 1)] : n >= 0 }", "[n] -> { [(3)] : n > 5; [(n)] : n <= 5 }" },
	{ "[n] -> { A[i, j] -> [(floor((i + floor((j)/2))/3) + n)] : 2i = j; A[i, j] -> [(floor((j)/2))] : i = 2j + 1 }", "{ A[i, j] -> [(2*floor((j)/2) - floor((i + j)/5))] }" },
	{ "{ A[i] -> [(floor((i + 2*floor((i)/5))/3))] : i mod 2 = 0; A[i] -> [(floor((i)/5))] : i mod 2 = 1 }", "{ A[i] -> [(floor((2i)/5))] : i >= 0; A[i] -> [(-i)] : i < 0 }" } } },
{ "isl_multi_aff", { { "[n] -> { A[i, j] -> B[(i + j + n)] }", "[n] -> { A[i, j] -> B[(floor((j)/3))] }" },
	{ "{ A[i] -> A[(i + 1)] }", "[n] -> { A[i] -> A[(n - i)] }" },
	{ "{ [A[i] -> B[j]] -> [C[(i)] -> D[(j + 1)]] }", "{ [A[i] -> B[j]] -> [C[(i - j)] -> D[(2)]] }" },
	{ "[n] -> { [(n), (n + 1)] }", "[n] -> { [(1), (2n)] }" },
	{ "[n] -> { A[i, j] -> B[(floor((i + floor((j)/2))/3) + n)] }", "{ A[i, j] -> B[(2*floor((j)/2) - floor((i)/5))] }" },
	{ "{ A[i] -> A[(floor((i + 2*floor((i)/5))/3))] }", "{ A[i] -> A[(2*floor((i)/2))] }" } } },
{ "isl_pw_multi_aff", { { "[n] -> { A[i, j] -> B[(i + j + n)] : i > 0 }", "[n] -> { A[i, j] -> B[(floor((j)/3))] : j >= 0; A[i, j] -> B[(i)] : j < 0 }" },
	{ "{ A[i] -> A[(i + 1)] : 0 <= i <= 5 }", "[n] -> { A[i] -> A[(n - i)] : i <= n }" },
	{ "{ [A[i] -> B[j]] -> [C[(i)] -> D[(j + 1)]] : i > j }", "{ [A[i] -> B[j]] -> [C[(i - j)] -> D[(2)]] : i <= j; [A[i] -> B[j]] -> [C[(i)] -> D[(3)]] : i > j }" },
	{ "[n] -> { [(n), (n + 1)] : n > 2 }", "[n] -> { [(1), (2n)] }" },
	{ "[n] -> { A[i, j] -> B[(floor((i + floor((j)/2))/3) + n)] : i = 2j }", "{ A[i, j] -> B[(2*floor((j)/2))] : i >= j; A[i, j] -> B[(floor((i)/2))] : i < j }" },
	{ "{ A[i] -> A[(floor((i + 2*floor((i)/5))/3))] : i mod 2 = 0 }", "{ A[i] -> A[(2*floor((i)/2))] : i >= 0; A[i] -> A[(floor((i)/3))] : i < 0 }" } } },
{ "isl_multi_pw_aff", { { "[n] -> { A[i, j] -> B[((i + j) : i > n; (j) : i <= n)] }", "[n] -> { A[i, j] -> B[((i) : j >= 0)] }" },
	{ "{ A[i] -> A[((i + 1) : i >= 0)] }", "[n] -> { A[i] -> A[(n - i)] }" },
	{ "{ [A[i] -> B[j]] -> [C[((i) : i > 0)] -> D[(j + 1)]] }", "{ [A[i] -> B[j]] -> [C[(i - j)] -> D[(2)]] }" },
	{ "[n] -> { [((n) : n >= 0), (n + 1)] }", "[n] -> { [] : n > 3 }" },
	{ "{ A[i, j] -> B[((floor((i + floor((j)/2))/3)) : i = 2j; (floor((j)/2)) : i > 2j)] }", "{ A[i, j] -> B[(2*floor((j)/2))] }" },
	{ "{ A[i] -> A[((floor((i)/2)) : i mod 3 = 0)] }", "{ A[i] -> A[((floor((i + 2*floor((i)/5))/3)) : i >= 0; (i) : i < 0)] }" } } },
{ "isl_union_set", { { "{ A[i] : 0 <= i <= 5; B[i, j] : 0 <= i, j <= 2 }", "[n] -> { A[i] : 3 <= i <= n; C[] }" },
	{ "{ A[i] : 0 <= i <= 10 }", "{ A[i] : 3 <= i <= 11; B[i, j] : i = j and 0 <= i <= 3 }" },
	{ "{ [A[i] -> B[j]] : 0 <= i <= 5 and j = 2i }", "{ [A[i] -> B[j]] : 3 <= i <= 8 and 0 <= j <= i; D[i] }" },
	{ "[n] -> { : n > 3 }", "{ }" },
	{ "[n] -> { A[i, j] : i = 2*floor((j)/2) + n and 0 <= j <= 9; B[i] : i mod 3 = 1 and 0 <= i <= n }", "{ A[i, j] : 2i = 3j and 0 <= j <= 12 }" },
	{ "{ A[i] : i = 3*floor((i + 2*floor((i)/5))/3) and 0 <= i <= 30 }", "{ A[i] : i mod 4 = 2 and 0 <= i <= 20; B[i, j] : i = 2*floor((j)/2) and 0 <= j <= 5 }" } } },
{ "isl_union_map", { { "{ A[i] -> B[i, j] : 0 <= i, j <= 2; B[i, j] -> A[i] : 0 <= i, j <= 2 }", "[n] -> { A[i] -> B[i, 0] : 1 <= i <= n }" },
	{ "{ A[i] -> A[i + 1] : 0 <= i <= 5 }", "{ A[i] -> A[2i] : 0 <= i <= 3; A[i] -> B[i, i] : 0 <= i <= 5 }" },
	{ "{ [A[i] -> B[j]] -> [C[i] -> D[j]] : 0 <= i, j <= 3 }", "{ [A[i] -> B[j]] -> [C[j] -> D[i]] : 0 <= i, j <= 3; A[i] -> C[i] }" },
	{ "{ A[i] -> [i] : 0 <= i <= 5; B[i, j] -> [i + j] : 0 <= i, j <= 2 }", "{ }" },
	{ "{ A[i, j] -> B[k] : k = floor((i + floor((j)/2))/3) and 0 <= i, j <= 9; B[k] -> A[k, k] : k mod 2 = 0 and 0 <= k <= 8 }", "{ A[i, j] -> B[i] : i = j and 0 <= i <= 5 }" },
	{ "{ A[i] -> A[j] : j = 2*floor((i)/2) and 0 <= i <= 9; A[i] -> A[j] : 2j = i + 7 and 0 <= i <= 9 }", "{ A[i] -> A[i + 2] : i mod 3 = 0 and 0 <= i <= 9 }" } } },
{ "isl_union_pw_aff", { { "{ A[i] -> [(i)]; B[i, j] -> [(i + j)] }", "[n] -> { A[i] -> [(i + n)] : i > 2 }" },
	{ "{ A[i] -> [(2i)] : i >= 0 }", "{ A[i] -> [(i)] : i >= 3; A[i] -> [(-i)] : i < 3 }" },
	{ "{ [A[i] -> B[j]] -> [(i)] }", "{ [A[i] -> B[j]] -> [(j)]; C[] -> [(3)] }" },
	{ "[n] -> { [(n)] }", "{ }" } } },
{ "isl_multi_union_pw_aff", { { "M[{ A[i] -> [(i)]; B[i, j] -> [(i)] }, { A[i] -> [(0)]; B[i, j] -> [(j)] }]", "[n] -> M[{ A[i] -> [(i)] : i >= n }, { A[i] -> [(2i)] }]" },
	{ "A[{ A[i] -> [(2i)] : i >= 0 }]", "A[{ A[i] -> [(i)]; B[i, j] -> [(j)] }]" },
	{ "[C[{ A[i] -> [(i)] }] -> D[{ A[i] -> [(i + 1)] }]]", "[C[{ A[i] -> [(i)] }] -> D[{ A[i] -> [(3)] }]]" },
	{ "([] : { A[i] : i > 0 })", "[n] -> (T[] : { : n > 0 })" } } },
{ "isl_union_pw_multi_aff", { { "{ A[i] -> B[(i), (i)]; B[i, j] -> A[(j)] : i > 0 }", "[n] -> { A[i] -> B[(n), (i)] : i < n }" },
	{ "{ A[i] -> A[(i + 1)] : 0 <= i <= 5 }", "{ A[i] -> A[(2i)]; C[] -> A[(0)] }" },
	{ "{ [A[i] -> B[j]] -> [C[(i)] -> D[(j)]] }", "{ [A[i] -> B[j]] -> [C[(j)] -> D[(i)]] : i > j }" },
	{ "{ A[i] -> [(i)] }", "{ }" } } },
{ "isl_pw_qpolynomial", { { "[n] -> { A[i, j] -> (i * j + n) : 0 <= i <= n and 0 <= j <= 3 }", "[n] -> { A[i, j] -> (i^2 - 3) : i >= 0; A[i, j] -> (floor((j)/2)) : i < 0 }" },
	{ "{ A[i] -> (2 * i + i^2) : 0 <= i <= 5 }", "{ A[i] -> (1/2 * i) }" },
	{ "{ [A[i] -> B[j]] -> (i - j^2) : 0 <= i, j <= 5 }", "{ [A[i] -> B[j]] -> (7) }" },
	{ "[n] -> { (n^2) : n >= 0 }", "[n] -> { (3) }" },
	{ "[n] -> { A[i, j] -> (i * floor((i + floor((j)/2))/3) + n) : 0 <= i, j <= 5 }", "{ A[i, j] -> (floor((j)/2)^2 - i) : 0 <= i <= j <= 5 }" },
	{ "{ A[i] -> (i * floor((i + 2*floor((i)/5))/3)) : i mod 2 = 0 }", "{ A[i] -> (floor((2*i)/5) + 1/3 * i) : 0 <= i <= 9 }" } } },
{ "isl_pw_qpolynomial_fold", { { "[n] -> { A[i, j] -> max((i * j + n), (3)) : 0 <= i <= n and 0 <= j <= 3 }", "[n] -> { A[i, j] -> max((i)) }" },
	{ "{ A[i] -> max((2 * i), (i^2)) : 0 <= i <= 5 }", "{ A[i] -> max((4)) : i > 2 }" },
	{ "{ [A[i] -> B[j]] -> max((i), (j)) : 0 <= i, j <= 5 }", "{ [A[i] -> B[j]] -> max((7)) }" },
	{ "[n] -> { max((n), (5)) : n >= 0 }", "[n] -> { max((3)) }" } } },
{ "isl_union_pw_qpolynomial", { { "{ A[i] -> (i^2) : 0 <= i <= 3; B[i, j] -> (i * j) : 0 <= i, j <= 2 }", "[n] -> { A[i] -> (i + n) }" },
	{ "{ A[i] -> (2 * i) : 0 <= i <= 5 }", "{ A[i] -> (1) : i >= 3; C[] -> (4) }" },
	{ "{ [A[i] -> B[j]] -> (i * j) : 0 <= i, j <= 3 }", "{ [A[i] -> B[j]] -> (j) }" },
	{ "[n] -> { (n) : n >= 0 }", "{ }" } } },
{ "isl_space", { { "[n] -> { A[i, j] }", "[n] -> { A[i, j] -> B[k] }" }, { "[n] -> { A[i] -> A[j] }", "[m, n] -> { A[i] }" },
	{ "{ [A[i] -> B[j]] -> [C[k] -> D[l]] }", "{ [A[i] -> B[j]] }" }, { "[n, m] -> { : }", "{ A[] -> [o] }" } } },
{ "isl_multi_val", { { "{ A[1, 2] }", "{ A[-1, 0] }" }, { "{ A[3] }", "{ A[-2] }" }, { "{ [A[4] -> B[5]] }", "{ [A[0] -> B[-5]] }" }, { "[n] -> { [] }", "{ [infty, nan] }" } } },
{ "isl_multi_id", { { "{ A[n, m] }", "{ A[x, n] }" }, { "{ A[n] }", "{ A[y] }" }, { "{ [A[n] -> B[m]] }", "{ [A[x] -> B[y]] }" }, { "{ [] }", "{ T[n, n] }" } } },
{ "isl_val", { { "3", "-5/2" }, { "1", "0" }, { "2", "infty" }, { "-1", "nan" } } },
{ "isl_schedule_constraints", { { "{ domain: \"{ A[i] : 0 <= i <= 5; B[i, j] : 0 <= i, j <= 2 }\", validity: \"{ A[i] -> B[i, j] : 0 <= i, j <= 2 }\", proximity: \"{ A[i] -> B[i, j] : 0 <= i, j <= 2 }\" }", "{ domain: \"{ A[i] : 0 <= i <= 5 }\", validity: \"{ A[i] -> A[i + 1] }\" }" },
	{ "{ domain: \"{ A[i] : 0 <= i <= 5 }\" }", "[n] -> { domain: \"[n] -> { A[i] : 0 <= i <= n }\", coincidence: \"{ A[i] -> A[i + 1] }\" }" },
	{ "{ domain: \"{ A[i] : 0 <= i <= 5 }\", conditional_validity_condition: \"{ [A[i] -> T[i]] -> [A[i + 1] -> T[i]] }\", conditional_validity: \"{ [A[i] -> T[i]] -> [A[i + 1] -> T[i]] }\" }", "{ domain: \"{ B[i, j] : 0 <= i, j <= 3 }\", validity: \"{ B[i, j] -> B[i + 1, j - 1] }\" }" },
	{ "{ domain: \"{ }\" }", "{ domain: \"{ A[i] : 0 <= i <= 5 }\", context: \"[n] -> { : n > 3 }\" }" } } },
{ "isl_schedule", { { "{ domain: \"{ A[i] : 0 <= i <= 5; B[i, j] : 0 <= i, j <= 2 }\", child: { schedule: \"[{ A[i] -> [(i)]; B[i, j] -> [(i)] }]\", child: { sequence: [ { filter: \"{ A[i] }\" }, { filter: \"{ B[i, j] }\", child: { schedule: \"[{ B[i, j] -> [(j)] }]\" } } ] } } }", "{ domain: \"[n] -> { A[i] : 0 <= i <= n }\", child: { context: \"[n] -> { [] : n > 4 }\", child: { schedule: \"[n] -> [{ A[i] -> [(i)] }]\" } } }" },
	{ "{ domain: \"{ A[i] : 0 <= i <= 10 }\", child: { mark: \"n\", child: { schedule: \"[{ A[i] -> [(i)] }]\", permutable: 1, coincident: [ 1 ] } } }", "{ domain: \"{ A[i] : 0 <= i <= 5 }\" }" },
	{ "{ domain: \"{ A[i] : 0 <= i <= 5; B[i, j] : 0 <= i, j <= 2 }\", child: { set: [ { filter: \"{ A[i] }\", child: { schedule: \"[{ A[i] -> [(i)] }, { A[i] -> [(2i)] }]\", permutable: 1 } }, { filter: \"{ B[i, j] }\" } ] } }", "{ domain: \"{ B[i, j] : 0 <= i, j <= 2 }\", child: { schedule: \"[{ B[i, j] -> [(i)] }, { B[i, j] -> [(j)] }]\", permutable: 1, coincident: [ 1, 0 ], options: \"{ separate[0]; atomic[1] }\" } }" },
	{ "{ domain: \"{ A[i] : 0 <= i <= 5 }\", child: { extension: \"{ [] -> C[] }\", child: { sequence: [ { filter: \"{ C[] }\" }, { filter: \"{ A[i] }\" } ] } } }", "{ domain: \"{ A[i] : 0 <= i <= 5 }\", child: { guard: \"[n] -> { [] : n > 2 }\" } }" } } },
