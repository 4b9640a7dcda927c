import sys; sys.path.insert(0, '/verif/tools/v')
from _h import mk
V, R, B, fn, sub, rep, src = mk("src/solvers/exact.rs")
P = ['C07']
S = 'split_up_b_ary_number_into_n_chunks'
C = 'convert_to_b_ary_digits'
G = 'get_next_value'
MAXV = """    let max_value = if k + 1 == n {
        total_values
    } else {
        min_value + chunk_size
    };
"""
LOOP = """    let mut digits = Vec::with_capacity(number_digits);
    let mut remainder = value;

    for _ in 1..number_digits {
        digits.push(remainder % basis);
        remainder /= basis;
    }
    digits.push(remainder);

    digits.reverse();
    digits
"""
BODY = """    let mut carry = 1;
    for digit in current_digits.iter_mut().rev() {
        *digit += carry;
        carry = *digit / basis;
        *digit %= basis;

        if carry == 0 {
            return Some(current_digits.to_vec());
        }
    }

    None
"""
# ------------------------------------------------ refactorings
R('p-nextbound', sub(S, (MAXV, "    let max_value = if k == n - 1 { total_values } else { (k + 1) * chunk_size };\n")))
R('p-match', sub(S, (MAXV, "    let max_value = match k + 1 {\n        next if next < n => next * chunk_size,\n        _ => total_values,\n    };\n")))
R('p-mut', sub(S, (MAXV, "    let mut max_value = min_value + chunk_size;\n    if k + 1 >= n {\n        max_value = total_values;\n    }\n")))
R('p-balanced', sub(S, ("    let chunk_size = total_values / n;\n\n    let min_value = k * chunk_size;\n", "    let min_value = k * total_values / n;\n"), (MAXV, "    let max_value = (k + 1) * total_values / n;\n")))
R('p-inline-digits', sub(S, ("    let min_digits = convert_to_b_ary_digits(min_value, basis, number_digits);\n    let max_digits = convert_to_b_ary_digits(max_value, basis, number_digits);\n\n    (min_digits, max_digits)", "    (\n        convert_to_b_ary_digits(min_value, basis, number_digits),\n        convert_to_b_ary_digits(max_value, basis, number_digits),\n    )")))
R('p-closure', sub(S, ("    let min_digits = convert_to_b_ary_digits(min_value, basis, number_digits);\n    let max_digits = convert_to_b_ary_digits(max_value, basis, number_digits);\n", "    let digits = |value| convert_to_b_ary_digits(value, basis, number_digits);\n    let min_digits = digits(min_value);\n    let max_digits = digits(max_value);\n")))
R('p-assert-ge', sub(S, ("assert!(total_values > n);", "assert!(total_values >= n);")))
R('p-while', sub(C, ("    for _ in 1..number_digits {\n        digits.push(remainder % basis);\n        remainder /= basis;\n    }\n", "    let mut i = 1;\n    while i < number_digits {\n        digits.push(remainder % basis);\n        remainder /= basis;\n        i += 1;\n    }\n")))
R('p-fill', sub(C, (LOOP, """    let mut digits = vec![0; number_digits];
    let mut remainder = value;
    for i in (1..number_digits).rev() {
        digits[i] = remainder % basis;
        remainder /= basis;
    }
    digits[0] = remainder;
    digits
""")))
R('p-powers', sub(C, (LOOP, "    (0..number_digits)\n        .map(|i| {\n            let d = value / basis.pow((number_digits - 1 - i) as u32);\n            if i == 0 { d } else { d % basis }\n        })\n        .collect()\n")))
R('p-revcollect', sub(C, ("    digits.reverse();\n    digits\n", "    digits.into_iter().rev().collect()\n")))
R('p-lsb', sub(C, ("    digits.reverse();\n    digits\n", "    digits\n")), sub(G, ("current_digits.iter_mut().rev()", "current_digits.iter_mut()")))
R('p-g-if', sub(G, (BODY, """    for digit in current_digits.iter_mut().rev() {
        if *digit + 1 < basis {
            *digit += 1;
            return Some(current_digits.to_vec());
        }
        *digit = 0;
    }
    None
""")))
R('p-g-index', sub(G, (BODY, """    let mut i = current_digits.len();
    while i > 0 {
        i -= 1;
        if current_digits[i] == basis - 1 {
            current_digits[i] = 0;
        } else {
            current_digits[i] += 1;
            return Some(current_digits.to_vec());
        }
    }
    None
""")))
R('p-g-flag', sub(G, (BODY, """    let mut done = false;
    for i in (0..current_digits.len()).rev() {
        current_digits[i] += 1;
        if current_digits[i] < basis {
            done = true;
            break;
        }
        current_digits[i] = 0;
    }
    if done {
        Some(current_digits.to_vec())
    } else {
        None
    }
""")))
R('p-g-then', sub(G, (BODY, """    let mut carry = true;
    for digit in current_digits.iter_mut().rev() {
        if !carry {
            break;
        }
        *digit += 1;
        carry = *digit == basis;
        if carry {
            *digit = 0;
        }
    }
    (!carry).then(|| current_digits.to_vec())
""")))
R('p-g-rem', sub(G, ("        *digit += carry;\n        carry = *digit / basis;\n        *digit %= basis;\n", "        let sum = *digit + carry;\n        *digit = sum % basis;\n        carry = sum / basis;\n")))
R('p-g-clone', sub(G, ("Some(current_digits.to_vec())", "Some(current_digits.to_owned())")))
R('p-g-pos', sub(G, (BODY, """    let i = current_digits.iter().rposition(|&d| d != basis - 1)?;
    current_digits[i] += 1;
    for d in current_digits[i + 1..].iter_mut() {
        *d = 0;
    }
    Some(current_digits.to_vec())
""")))
# ------------------------------------------------ bugs
B('p-noremainder', P, sub(S, (MAXV, "    let max_value = min_value + chunk_size;\n")))
B('p-minus', P, sub(S, ("        total_values\n    } else", "        total_values - 1\n    } else")))
B('p-overlap', P, sub(S, ("        min_value + chunk_size\n", "        min_value + chunk_size + 1\n")))
B('p-ceil', P, sub(S, ("let chunk_size = total_values / n;", "let chunk_size = total_values.div_ceil(n);")))
B('p-from1', P, sub(S, ("let min_value = k * chunk_size;", "let min_value = if k == 0 { 1 } else { k * chunk_size };")))
B('p-wrongn', P, sub(S, ("if k + 1 == n {", "if k == n {")))
B('p-wrongfirst', P, sub(S, ("if k + 1 == n {", "if k + 2 == n {")))
B('p-reduced', P, sub(C, ("    digits.push(remainder);\n", "    digits.push(remainder % basis);\n")))
B('p-basis', P, sub(C, ("remainder /= basis;", "remainder /= number_digits;")))
B('p-order', P, sub(C, ("    digits.reverse();\n", "")))
B('p-short', P, sub(C, ("for _ in 1..number_digits {", "for _ in 2..number_digits {"), ("    digits.push(remainder);\n", "    digits.push(remainder);\n    digits.resize(number_digits, 0);\n")))
B('p-swap', P, sub(S, ("convert_to_b_ary_digits(min_value, basis, number_digits)", "convert_to_b_ary_digits(min_value, number_digits, basis)")))
B('p-panic', P, sub(S, ("assert!(total_values > n);", "assert!(total_values > n * n);")))
B('p-g-two', P, sub(G, ("let mut carry = 1;", "let mut carry = 2;")))
B('p-g-le', P, sub(G, ("if carry == 0 {", "if carry <= 1 {")))
B('p-g-skiplast', P, sub(G, ("iter_mut().rev()", "iter_mut().rev().skip(1)")))
B('p-g-first', P, sub(G, ("iter_mut().rev()", "iter_mut().skip(1).rev()")))
B('p-g-norem', P, sub(G, ("        *digit %= basis;\n", "        if carry == 0 {\n            *digit %= basis;\n        }\n")))
B('p-g-one', P, sub(G, ("        *digit %= basis;\n", "        *digit %= basis;\n        *digit = (*digit).max(carry);\n")))
B('p-g-none', P, sub(G, ("    None\n", "    Some(current_digits.to_vec())\n")))
B('p-g-dir', P, sub(G, ("iter_mut().rev()", "iter_mut()")))
B('p-g-basis', P, sub(G, ("*digit %= basis;", "*digit %= basis - 1;")))
