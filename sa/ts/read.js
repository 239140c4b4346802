// Reads the SDK's sources (never runs them): the structure of its declared
// types, and what each method does with its arguments, by evaluating its body
// over symbolic arguments.  Prints JSON.
const ts = require(process.env.TSLIB || "/opt/veriftools/node/node_modules/typescript");
const path = require("path");
const dir = process.argv[2];
const names = process.argv.slice(3);
const files = [];
for (const n of names)
  for (const k of ["types", "client", "message-composer", "react-query"]) files.push(path.join(dir, n + "." + k + ".ts"));
const program = ts.createProgram(files, { strict: true, noEmit: true, target: ts.ScriptTarget.ES2020, lib: ["lib.es2020.d.ts"], noResolve: false, skipLibCheck: true, types: [] });
const checker = program.getTypeChecker();

// ------------------------------------------------------------------ types
function norm(t, depth = 0) {
  if (depth > 30) return ["unknown", "deep"];
  const F = ts.TypeFlags;
  if (t.flags & F.Any) return ["unknown", "any"];
  if (t.flags & F.StringLiteral) return ["lit", t.value];
  if (t.flags & F.String) return ["str"];
  if (t.flags & F.Number) return ["num"];
  if (t.flags & F.BooleanLike) return ["bool"];
  if (t.flags & F.Null) return ["null"];
  if (t.flags & (F.Undefined | F.Void)) return ["undef"];
  if (t.isUnion()) return ["or", t.types.map((x) => norm(x, depth + 1))];
  if (checker.isTupleType(t)) return ["tup", checker.getTypeArguments(t).map((x) => norm(x, depth + 1))];
  if (checker.isArrayType(t)) return ["arr", norm(checker.getTypeArguments(t)[0], depth + 1)];
  if (t.symbol && t.symbol.name === "Promise") return ["promise", norm(checker.getTypeArguments(t)[0], depth + 1)];
  if (t.isIntersection() || t.flags & F.Object) {
    const fs = [];
    for (const p of checker.getPropertiesOfType(t)) {
      const d = p.valueDeclaration || (p.declarations || [])[0];
      const pt = checker.getTypeOfSymbolAtLocation(p, d || root);
      fs.push([p.name, norm(pt, depth + 1), !!(p.flags & ts.SymbolFlags.Optional)]);
    }
    if (t.getCallSignatures().length) return ["fn"];
    return ["obj", fs];
  }
  return ["unknown", checker.typeToString(t)];
}
let root = null;

// ------------------------------------------------------- symbolic evaluation
class Stop extends Error {}
const unk = (why) => ["?", why];
function evalBlock(stmts, env) {
  for (const s of stmts) {
    if (ts.isVariableStatement(s)) {
      for (const d of s.declarationList.declarations) bind(d.name, d.initializer ? ev(d.initializer, env) : ["undef"], env);
    } else if (ts.isReturnStatement(s)) return s.expression ? ev(s.expression, env) : ["undef"];
    else if (ts.isExpressionStatement(s)) {
      // only expressions known to have no effect
      const r = ev(s.expression, env);
      if (hasCall(r)) throw new Stop("a call for its effect");
    } else if (ts.isIfStatement(s)) {
      const c = ev(s.expression, env);
      if (c[0] === "bool") {
        const b = c[1] ? s.thenStatement : s.elseStatement;
        const r = b && evalBlock(ts.isBlock(b) ? b.statements : [b], env);
        if (r) return r;
      } else if (!empty(s.thenStatement) || (s.elseStatement && !empty(s.elseStatement)) || hasCall(c)) throw new Stop("a condition");
    }
    else if (ts.isFunctionDeclaration(s)) env.v[s.name.text] = ["fn", s, env];
    else if (ts.isBlock(s)) {
      const r = evalBlock(s.statements, env);
      if (r) return r;
    } else if (ts.isEmptyStatement(s)) {
    } else throw new Stop("statement " + ts.SyntaxKind[s.kind]);
  }
  return null;
}
const empty = (s) => ts.isEmptyStatement(s) || (ts.isBlock(s) && s.statements.every(empty));
function hasCall(v) {
  if (!Array.isArray(v)) return false;
  if (v[0] === "call") return !(v[1][0] === "get" && v[1][1][0] === "global" && ["console", "String", "Number", "Boolean"].includes(v[1][1][1])) && !(v[1][0] === "global" && ["String", "Number", "Boolean"].includes(v[1][1]));
  if (v[0] === "fn") return false;
  return v.some(hasCall);
}
function bind(n, v, env) {
  if (ts.isIdentifier(n)) env.v[n.text] = v;
  else if (ts.isObjectBindingPattern(n)) {
    for (const e of n.elements) {
      if (e.dotDotDotToken) throw new Stop("rest pattern");
      const k = (e.propertyName || e.name).getText();
      let x = get(v, k);
      if (e.initializer) {
        const d = ev(e.initializer, env);
        if (x[0] === "undef") x = d;
        else if (!["obj", "str", "num", "bool", "fn", "arr"].includes(x[0]) && d[0] !== "undef") x = ["dflt", x, d];
      }
      bind(e.name, x, env);
    }
  } else throw new Stop("pattern");
}
function get(v, k) {
  if (v[0] === "obj") {
    const f = v[1].find((x) => x[0] === k);
    return f ? f[1] : ["undef"];
  }
  if (v[0] === "fnv" || v[0] === "?") return ["get", v, k];
  return ["get", v, k];
}
function lookup(n, env) {
  for (let e = env; e; e = e.up) if (n in e.v) return e.v[n];
  return ["global", n];
}
let calls = [];
function ev(e, env) {
  if (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || (ts.isSatisfiesExpression && ts.isSatisfiesExpression(e))) return ev(e.expression, env);
  if (ts.isAwaitExpression(e)) return ev(e.expression, env);
  if (ts.isIdentifier(e)) return e.text === "undefined" ? ["undef"] : lookup(e.text, env);
  if (e.kind === ts.SyntaxKind.ThisKeyword) return lookup("this", env);
  if (ts.isStringLiteralLike(e)) return ["str", e.text];
  if (ts.isNumericLiteral(e)) return ["num", e.text];
  if (e.kind === ts.SyntaxKind.NullKeyword) return ["null"];
  if (e.kind === ts.SyntaxKind.TrueKeyword || e.kind === ts.SyntaxKind.FalseKeyword) return ["bool", e.kind === ts.SyntaxKind.TrueKeyword];
  if (ts.isObjectLiteralExpression(e)) {
    let fs = [];
    const put = (k, v) => {
      fs = fs.filter((x) => x[0] !== k);
      fs.push([k, v]);
    };
    for (const p of e.properties) {
      if (ts.isShorthandPropertyAssignment(p)) put(p.name.text, lookup(p.name.text, env));
      else if (ts.isPropertyAssignment(p)) {
        let k = p.name;
        if (ts.isComputedPropertyName(k)) {
          const kv = ev(k.expression, env);
          if (kv[0] !== "str") throw new Stop("computed key");
          k = kv[1];
        } else k = k.text;
        put(k, ev(p.initializer, env));
      } else if (ts.isSpreadAssignment(p)) {
        const v = ev(p.expression, env);
        if (v[0] === "obj") for (const [k, x] of v[1]) put(k, x);
        else if (v[0] === "arg" && v[2]) for (const k of v[2]) put(k, ["get", v, k]);
        else throw new Stop("spread");
      } else throw new Stop("property");
    }
    return ["obj", fs];
  }
  if (ts.isArrayLiteralExpression(e)) return ["arr", e.elements.map((x) => ev(x, env))];
  if (ts.isPropertyAccessExpression(e)) {
    const b = ev(e.expression, env);
    return get(b, e.name.text);
  }
  if (ts.isElementAccessExpression(e)) {
    const b = ev(e.expression, env),
      k = ev(e.argumentExpression, env);
    if (k[0] !== "str") throw new Stop("index");
    return get(b, k[1]);
  }
  if (ts.isArrowFunction(e) || ts.isFunctionExpression(e)) return ["fn", e, env];
  if (ts.isCallExpression(e)) {
    const f = ev(e.expression, env);
    const as = e.arguments.map((x) => {
      if (ts.isSpreadElement(x)) throw new Stop("spread argument");
      return ev(x, env);
    });
    return apply(f, as, env);
  }
  if (ts.isConditionalExpression(e)) return ["cond", ev(e.condition, env), ev(e.whenTrue, env), ev(e.whenFalse, env)];
  if (ts.isVoidExpression(e)) return hasCall(ev(e.expression, env)) ? unk("void") : ["undef"];
  if (ts.isBinaryExpression(e)) {
    if (e.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && e.operatorToken.kind <= ts.SyntaxKind.LastAssignment) throw new Stop("an assignment");
    const a = ev(e.left, env),
      b = ev(e.right, env);
    if (e.operatorToken.kind === ts.SyntaxKind.PlusToken && a[0] === "str" && b[0] === "str") return ["str", a[1] + b[1]];
    return ["op", ts.tokenToString(e.operatorToken.kind), a, b];
  }
  if (ts.isTemplateExpression(e)) {
    let s = e.head.text;
    const parts = [];
    for (const sp of e.templateSpans) {
      const v = ev(sp.expression, env);
      if (v[0] === "str") s += v[1];
      else {
        parts.push(["str", s], v);
        s = "";
      }
      s += sp.literal.text;
    }
    parts.push(["str", s]);
    return parts.length === 1 ? parts[0] : ["cat", parts];
  }
  if (ts.isPrefixUnaryExpression(e) && e.operator !== ts.SyntaxKind.PlusPlusToken && e.operator !== ts.SyntaxKind.MinusMinusToken) return ["op", ts.tokenToString(e.operator), ev(e.operand, env)];
  throw new Stop("expression " + ts.SyntaxKind[e.kind]);
}
let depth = 0;
function apply(f, as, env) {
  if (f[0] === "fn") {
    if (++depth > 30) throw new Stop("recursion");
    const [, d, up] = f;
    const e2 = { v: {}, up };
    d.parameters.forEach((p, i) => {
      let v = i < as.length ? as[i] : ["undef"];
      if (p.initializer && v[0] === "undef") v = ev(p.initializer, e2);
      bind(p.name, v, e2);
    });
    let r;
    if (ts.isBlock(d.body)) r = evalBlock(d.body.statements, e2) || ["undef"];
    else r = ev(d.body, e2);
    depth--;
    return r;
  }
  if (f[0] === "get" && f[1][0] === "this" && methods[f[2]]) return apply(["fn", methods[f[2]], thisEnv], as, env);
  return ["call", f, as];
}

// ---------------------------------------------------------------- collect
let methods = {};
let thisEnv = null;
const out = { types: {}, classes: {}, hooks: {}, errors: [] };

function params(d) {
  return d.parameters.map((p, i) => {
    const t = checker.getTypeAtLocation(p);
    const n = norm(t);
    return { type: n, optional: !!(p.questionToken || p.initializer), fields: n[0] === "obj" ? n[1].map((x) => x[0]) : null, dflt: p.initializer ? p.initializer.getText() : null, name: p.name.getText() };
  });
}
function returns(d) {
  const sig = checker.getSignatureFromDeclaration(d);
  const t = sig.getReturnType();
  let n = norm(t);
  if (d.type && n[0] === "unknown") n = ["named", d.type.getText()];
  return n;
}
function summary(d, env) {
  const ps = params(d);
  const as = ps.map((p, i) => ["arg", i, p.fields]);
  depth = 0;
  try {
    return { params: ps, returns: returns(d), result: strip(apply(["fn", d, env], as, env)) };
  } catch (x) {
    if (!(x instanceof Stop)) throw x;
    return { params: ps, returns: returns(d), error: x.message };
  }
}
function strip(v) {
  if (!Array.isArray(v)) return v;
  if (v[0] === "fn") return ["fn", strip(apply(v, v[1].parameters.map((_, i) => ["farg", i]), null))];
  if (v[0] === "arg") return ["arg", v[1]];
  return v.map(strip);
}
function moduleEnv(sf) {
  const env = { v: {}, up: null };
  for (const s of sf.statements) {
    if (ts.isFunctionDeclaration(s) && s.name) env.v[s.name.text] = ["fn", s, env];
    if (ts.isVariableStatement(s))
      for (const d of s.declarationList.declarations)
        if (d.initializer && ts.isIdentifier(d.name)) {
          try {
            env.v[d.name.text] = ev(d.initializer, env);
          } catch (x) {
            env.v[d.name.text] = unk(x.message);
          }
        }
  }
  return env;
}
for (const f of files) {
  const sf = program.getSourceFile(f);
  if (!sf) {
    out.errors.push("missing " + path.basename(f));
    continue;
  }
  root = sf;
  const base = path.basename(f);
  for (const d of program.getSyntacticDiagnostics(sf)) out.errors.push(base + ": " + ts.flattenDiagnosticMessageText(d.messageText, " "));
  const menv = moduleEnv(sf);
  const bases = {};
  for (const s of sf.statements) {
    if (base.endsWith(".types.ts") && (ts.isTypeAliasDeclaration(s) || ts.isInterfaceDeclaration(s))) {
      const [n] = base.split(".");
      (out.types[n] = out.types[n] || {})[s.name.text] = norm(checker.getTypeAtLocation(s));
    }
    if (ts.isClassDeclaration(s) && s.name) {
      const ms = {};
      const ext = (s.heritageClauses || []).filter((h) => h.token === ts.SyntaxKind.ExtendsKeyword).map((h) => h.types[0].expression.getText())[0];
      methods = Object.assign({}, ext && bases[ext] ? bases[ext] : {});
      let ctor = null;
      for (const m of s.members) {
        if (ts.isConstructorDeclaration(m)) ctor = m;
        let d = null;
        if (ts.isPropertyDeclaration(m) && m.initializer && (ts.isArrowFunction(m.initializer) || ts.isFunctionExpression(m.initializer))) d = m.initializer;
        if (ts.isMethodDeclaration(m) && m.body) d = m;
        if (d) {
          methods[m.name.getText()] = d;
          ms[m.name.getText()] = d;
        }
      }
      bases[s.name.text] = Object.assign({}, methods);
      thisEnv = { v: { this: ["this"] }, up: menv };
      const fields = {};
      if (ctor) {
        ctor.parameters.forEach((p, i) => {
          if (p.modifiers && p.modifiers.length) fields[p.name.getText()] = ["arg", i];
        });
        const cenv = { v: { this: ["this"], super: ["super"] }, up: menv };
        ctor.parameters.forEach((p, i) => bind(p.name, ["arg", i, null], cenv));
        for (const st of ctor.body.statements) {
          if (!ts.isExpressionStatement(st)) continue;
          const x = st.expression;
          if (ts.isBinaryExpression(x) && x.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isPropertyAccessExpression(x.left) && x.left.expression.kind === ts.SyntaxKind.ThisKeyword) {
            try {
              fields[x.left.name.text] = strip(ev(x.right, cenv));
            } catch (z) {
              fields[x.left.name.text] = ["?", z.message];
            }
          } else if (ts.isCallExpression(x) && x.expression.kind === ts.SyntaxKind.SuperKeyword) fields["super"] = x.arguments.map((a) => strip(ev(a, cenv)));
        }
      }
      const sums = {};
      for (const [n, d] of Object.entries(ms)) sums[n] = summary(d, thisEnv);
      out.classes[s.name.text] = { file: base, extends: ext || null, fields, ctor: ctor ? ctor.parameters.map((p) => p.name.getText()) : null, methods: sums };
    }
    if (base.endsWith(".react-query.ts") && ts.isFunctionDeclaration(s) && s.name) {
      methods = {};
      thisEnv = null;
      const r = summary(s, menv);
      r.file = base;
      out.hooks[s.name.text] = r;
    }
  }
}
console.log(JSON.stringify(out));
