"""Wrap the middle of every `\\/ /\\ e[1] = "op" ... /\\ UNCHANGED st` block in Holds(...), so that TLC evaluates it as an expression instead of branching on every witness."""
import sys
for p in sys.argv[1:]:
    L = open(p).read().split("\n"); out = []; i = 0
    while i < len(L):
        if L[i].startswith('  \\/ /\\ e[1] = "') and "UNCHANGED" not in L[i]:
            j = i + 1
            while not (L[j].startswith("     /\\ UNCHANGED st") or L[j].startswith("  \\/ ") or not L[j].startswith("   ")): j += 1
            if L[j].startswith("     /\\ UNCHANGED st") and j > i + 1 and "Holds(" not in L[i + 1]:
                head = L[i]; rest = ""
                if " /\\ " in head[8:]:      # further conjuncts on the first line
                    k = head.index(" /\\ ", 8); rest = head[k + 1:]; c = head.find("\\*"); 
                    head = head[:k]
                out.append(head); out.append("     /\\ Holds(")
                if rest: out.append("       " + rest)
                out += ["  " + x for x in L[i + 1:j]]
                out[-1] = out[-1] + "" ; out.append("       )"); out.append(L[j]); i = j + 1; continue
        out.append(L[i]); i += 1
    open(p, "w").write("\n".join(out))
