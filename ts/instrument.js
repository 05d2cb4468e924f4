// Turns a TypeScript source into JavaScript in which every operator, condition and global function that may meet a
// symbolic value calls the runtime ($, see sym.js). Everything else runs as it is.
const ts = require('/opt/veriftools/node/node_modules/typescript');
const f = ts.factory, K = ts.SyntaxKind;
const rt = (name, ...args) => f.createCallExpression(f.createPropertyAccessExpression(f.createIdentifier('$'), name), undefined, args);
const BIN = new Map([[K.PlusToken, '+'], [K.MinusToken, '-'], [K.AsteriskToken, '*'], [K.SlashToken, '/'], [K.PercentToken, '%'], [K.AsteriskAsteriskToken, '**'],
  [K.LessThanToken, '<'], [K.GreaterThanToken, '>'], [K.LessThanEqualsToken, '<='], [K.GreaterThanEqualsToken, '>='],
  [K.EqualsEqualsToken, '=='], [K.ExclamationEqualsToken, '!='], [K.EqualsEqualsEqualsToken, '==='], [K.ExclamationEqualsEqualsToken, '!=='],
  [K.AmpersandToken, '&'], [K.BarToken, '|'], [K.CaretToken, '^'], [K.LessThanLessThanToken, '<<'], [K.GreaterThanGreaterThanToken, '>>'], [K.GreaterThanGreaterThanGreaterThanToken, '>>>']]);
const ASSIGN = new Map([[K.PlusEqualsToken, '+'], [K.MinusEqualsToken, '-'], [K.AsteriskEqualsToken, '*'], [K.SlashEqualsToken, '/'], [K.PercentEqualsToken, '%'],
  [K.AsteriskAsteriskEqualsToken, '**'], [K.AmpersandEqualsToken, '&'], [K.BarEqualsToken, '|'], [K.CaretEqualsToken, '^'],
  [K.LessThanLessThanEqualsToken, '<<'], [K.GreaterThanGreaterThanEqualsToken, '>>'], [K.GreaterThanGreaterThanGreaterThanEqualsToken, '>>>']]);
const LOGIC = new Map([[K.AmpersandAmpersandToken, '&&'], [K.BarBarToken, '||']]);
const LOGIC_ASSIGN = new Map([[K.AmpersandAmpersandEqualsToken, '&&'], [K.BarBarEqualsToken, '||']]);
function rewrite(context) {
  let temps = 0;
  const lit = s => f.createStringLiteral(s);
  const truth = e => rt('truth', e);
  const logic = (op, a, b) => {
    const t = f.createIdentifier('$t' + temps++);
    const first = f.createParenthesizedExpression(f.createBinaryExpression(f.createAssignment(t, a), K.CommaToken, truth(t)));
    return f.createParenthesizedExpression(op === '&&' ? f.createConditionalExpression(first, undefined, b, undefined, t) : f.createConditionalExpression(first, undefined, t, undefined, b));
  };
  const visit = n => {
    if (ts.isBinaryExpression(n)) {
      const k = n.operatorToken.kind, a = ts.visitNode(n.left, visit), b = ts.visitNode(n.right, visit);
      if (BIN.has(k)) return rt('bin', lit(BIN.get(k)), a, b);
      if (LOGIC.has(k)) return logic(LOGIC.get(k), a, b);
      if (ASSIGN.has(k)) return f.createAssignment(a, rt('bin', lit(ASSIGN.get(k)), a, b));
      if (LOGIC_ASSIGN.has(k)) return f.createAssignment(a, logic(LOGIC_ASSIGN.get(k), a, b));
      return f.updateBinaryExpression(n, a, n.operatorToken, b);
    }
    if (ts.isPrefixUnaryExpression(n)) {
      const e = ts.visitNode(n.operand, visit);
      switch (n.operator) {
        case K.ExclamationToken: return f.createLogicalNot(truth(e));
        case K.MinusToken: return ts.isNumericLiteral(e) || ts.isBigIntLiteral(e) ? f.updatePrefixUnaryExpression(n, e) : rt('neg', e);
        case K.PlusToken: return rt('num', e);
        case K.TildeToken: return rt('not', e);
        case K.PlusPlusToken: return f.createParenthesizedExpression(f.createAssignment(e, rt('inc', e, lit('+'))));
        case K.MinusMinusToken: return f.createParenthesizedExpression(f.createAssignment(e, rt('inc', e, lit('-'))));
      }
    }
    if (ts.isPostfixUnaryExpression(n)) {
      const e = ts.visitNode(n.operand, visit), op = lit(n.operator === K.PlusPlusToken ? '+' : '-');
      return rt('first', e, f.createAssignment(e, rt('inc', e, op)));
    }
    if (ts.isTypeOfExpression(n)) return rt('typeOf', f.createArrowFunction(undefined, undefined, [], undefined, f.createToken(K.EqualsGreaterThanToken), ts.visitNode(n.expression, visit)));
    if (ts.isConditionalExpression(n)) return f.createParenthesizedExpression(f.createConditionalExpression(truth(ts.visitNode(n.condition, visit)), undefined, ts.visitNode(n.whenTrue, visit), undefined, ts.visitNode(n.whenFalse, visit)));
    n = ts.visitEachChild(n, visit, context);
    if (ts.isIfStatement(n)) return f.updateIfStatement(n, truth(n.expression), n.thenStatement, n.elseStatement);
    if (ts.isWhileStatement(n)) return f.updateWhileStatement(n, truth(n.expression), n.statement);
    if (ts.isDoStatement(n)) return f.updateDoStatement(n, n.statement, truth(n.expression));
    if (ts.isForStatement(n) && n.condition) return f.updateForStatement(n, n.initializer, truth(n.condition), n.incrementor, n.statement);
    if (ts.isSwitchStatement(n)) {
      const t = f.createIdentifier('$t' + temps++);
      const clauses = n.caseBlock.clauses.map(c => ts.isCaseClause(c) ? f.updateCaseClause(c, truth(rt('bin', lit('==='), t, c.expression)), c.statements) : c);
      return f.createBlock([f.createExpressionStatement(f.createAssignment(t, n.expression)), f.updateSwitchStatement(n, f.createTrue(), f.updateCaseBlock(n.caseBlock, clauses))]);
    }
    return n;
  };
  return file => {
    const out = ts.visitNode(file, visit);
    if (!temps) return out;
    const v = f.createVariableStatement(undefined, f.createVariableDeclarationList([...Array(temps).keys()].map(i => f.createVariableDeclaration('$t' + i)), ts.NodeFlags.Let));
    return f.updateSourceFile(out, [v, ...out.statements]);
  };
}
// the JavaScript of a TypeScript source, as it is or instrumented
exports.compile = (text, name, symbolic) => {
  const options = { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.CommonJS, esModuleInterop: true };
  const r = ts.transpileModule(text, { fileName: name, compilerOptions: { ...options, module: ts.ModuleKind.CommonJS }, reportDiagnostics: true });
  if (r.diagnostics.length) throw new Error(name + ': ' + ts.flattenDiagnosticMessageText(r.diagnostics[0].messageText, '\n'));
  if (!symbolic) return r.outputText;
  const file = ts.createSourceFile(name + '.js', r.outputText, ts.ScriptTarget.ES2022, true, ts.ScriptKind.JS);
  const t = ts.transform(file, [rewrite]);
  return ts.createPrinter().printFile(t.transformed[0]);
};
// the named functions of a source
exports.functions = (text, name) => {
  const out = [], file = ts.createSourceFile(name, text, ts.ScriptTarget.ES2022, true);
  const walk = n => { if ((ts.isFunctionDeclaration(n) || ts.isMethodDeclaration(n)) && n.name) out.push(n.name.getText()); if (ts.isConstructorDeclaration(n)) out.push(n.parent.name.getText() + '.constructor'); n.forEachChild(walk); };
  walk(file);
  return out;
};
