'use strict';
// TypeScript or JavaScript -> JavaScript in which every operation that may meet a symbolic value is a call of the runtime.
const ts = require('/opt/veriftools/node/node_modules/typescript');
const F = ts.factory, K = ts.SyntaxKind;
const BIN = new Map([[K.PlusToken, '+'], [K.MinusToken, '-'], [K.AsteriskToken, '*'], [K.SlashToken, '/'], [K.PercentToken, '%'], [K.AsteriskAsteriskToken, '**'], [K.LessThanToken, '<'], [K.GreaterThanToken, '>'], [K.LessThanEqualsToken, '<='], [K.GreaterThanEqualsToken, '>='], [K.EqualsEqualsToken, '=='], [K.ExclamationEqualsToken, '!='], [K.EqualsEqualsEqualsToken, '==='], [K.ExclamationEqualsEqualsToken, '!=='], [K.AmpersandToken, '&'], [K.BarToken, '|'], [K.CaretToken, '^'], [K.LessThanLessThanToken, '<<'], [K.GreaterThanGreaterThanToken, '>>'], [K.GreaterThanGreaterThanGreaterThanToken, '>>>']]);
const ASG = new Map([[K.PlusEqualsToken, '+'], [K.MinusEqualsToken, '-'], [K.AsteriskEqualsToken, '*'], [K.SlashEqualsToken, '/'], [K.PercentEqualsToken, '%'], [K.AmpersandEqualsToken, '&'], [K.BarEqualsToken, '|'], [K.CaretEqualsToken, '^'], [K.LessThanLessThanEqualsToken, '<<'], [K.GreaterThanGreaterThanEqualsToken, '>>'], [K.GreaterThanGreaterThanGreaterThanEqualsToken, '>>>']]);
const call = (n, ...a) => F.createCallExpression(F.createPropertyAccessExpression(F.createIdentifier('$'), n), undefined, a);
const literal = n => n.kind === K.StringLiteral || n.kind === K.NumericLiteral || n.kind === K.NullKeyword || n.kind === K.TrueKeyword || n.kind === K.FalseKeyword || (n.kind === K.Identifier && n.text === 'undefined');
function instrument(tag) {
    return ctx => file => {
        const cls = [];
        const nameOf = n => { const own = n.name && n.name.getText ? n.name.getText(file) : n.kind === K.Constructor ? 'constructor' : n.parent && ts.isVariableDeclaration(n.parent) ? n.parent.name.getText(file) : null; return own && tag ? tag + '::' + [...cls, own].join('.') : null; };
        const cond = e => literal(e) ? e : call('c', e);
        const visit = n => {
            if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n)) return n;
            const c = (ts.isClassDeclaration(n) || ts.isClassExpression(n) || ts.isModuleDeclaration(n)) && n.name;
            if (c) cls.push(n.name.text);
            const fnName = ts.isFunctionLike(n) && n.body ? nameOf(n) : null;
            const m = ts.visitEachChild(n, visit, ctx);
            if (c) cls.pop();
            if (fnName && m.body && ts.isBlock(m.body)) {
                const s = F.createExpressionStatement(call('fn', F.createStringLiteral(fnName)));
                const at = m.kind === K.Constructor ? 1 + m.body.statements.findIndex(x => ts.isExpressionStatement(x) && ts.isCallExpression(x.expression) && x.expression.expression.kind === K.SuperKeyword) : 0;
                const body = F.createBlock([...m.body.statements.slice(0, at), s, ...m.body.statements.slice(at)], true);
                if (ts.isMethodDeclaration(m)) return F.updateMethodDeclaration(m, m.modifiers, m.asteriskToken, m.name, m.questionToken, m.typeParameters, m.parameters, m.type, body);
                if (ts.isConstructorDeclaration(m)) return F.updateConstructorDeclaration(m, m.modifiers, m.parameters, body);
                if (ts.isFunctionDeclaration(m)) return F.updateFunctionDeclaration(m, m.modifiers, m.asteriskToken, m.name, m.typeParameters, m.parameters, m.type, body);
                if (ts.isArrowFunction(m)) return F.updateArrowFunction(m, m.modifiers, m.typeParameters, m.parameters, m.type, m.equalsGreaterThanToken, body);
                if (ts.isFunctionExpression(m)) return F.updateFunctionExpression(m, m.modifiers, m.asteriskToken, m.name, m.typeParameters, m.parameters, m.type, body);
                return m;
            }
            if (ts.isBinaryExpression(m)) {
                const op = m.operatorToken.kind;
                if (BIN.has(op)) return call('bin', F.createStringLiteral(BIN.get(op)), m.left, m.right);
                if (ASG.has(op)) return F.createAssignment(m.left, call('bin', F.createStringLiteral(ASG.get(op)), m.left, m.right));
                if (op === K.AmpersandAmpersandToken || op === K.BarBarToken) return F.createParenthesizedExpression(F.updateBinaryExpression(m, call('tv', m.left), m.operatorToken, m.right));
                return m;
            }
            if (ts.isPrefixUnaryExpression(m)) {
                if (m.operator === K.ExclamationToken) return F.updatePrefixUnaryExpression(m, call('tv', m.operand));
                if (m.operator === K.MinusToken) return m.operand.kind === K.NumericLiteral || m.operand.kind === K.BigIntLiteral ? m : call('neg', m.operand);
                if (m.operator === K.PlusToken) return call('plus', m.operand);
                if (m.operator === K.TildeToken) return call('bin', F.createStringLiteral('^'), m.operand, F.createPrefixUnaryExpression(K.MinusToken, F.createNumericLiteral(1)));
                const d = m.operator === K.PlusPlusToken ? F.createNumericLiteral(1) : F.createPrefixUnaryExpression(K.MinusToken, F.createNumericLiteral(1));
                return F.createParenthesizedExpression(F.createAssignment(m.operand, call('inc', m.operand, d)));
            }
            if (ts.isPostfixUnaryExpression(m)) { const d = m.operator === K.PlusPlusToken ? F.createNumericLiteral(1) : F.createPrefixUnaryExpression(K.MinusToken, F.createNumericLiteral(1)); return call('fst', m.operand, F.createAssignment(m.operand, call('inc', m.operand, d))); }
            if (ts.isTypeOfExpression(m)) return ts.isIdentifier(m.expression) ? F.createParenthesizedExpression(F.createConditionalExpression(F.createBinaryExpression(m, K.EqualsEqualsEqualsToken, F.createStringLiteral('undefined')), undefined, F.createStringLiteral('undefined'), undefined, call('typeOf', m.expression))) : call('typeOf', m.expression);
            if (ts.isIfStatement(m)) return F.updateIfStatement(m, cond(m.expression), m.thenStatement, m.elseStatement);
            if (ts.isWhileStatement(m)) return F.updateWhileStatement(m, call('c', m.expression), m.statement);
            if (ts.isDoStatement(m)) return F.updateDoStatement(m, m.statement, call('c', m.expression));
            if (ts.isForStatement(m)) return F.updateForStatement(m, m.initializer, call('c', m.condition || F.createTrue()), m.incrementor, m.statement);
            if (ts.isConditionalExpression(m)) return F.updateConditionalExpression(m, cond(m.condition), m.questionToken, m.whenTrue, m.colonToken, m.whenFalse);
            if (ts.isSwitchStatement(m)) return F.updateSwitchStatement(m, call('sw', m.expression, F.createArrayLiteralExpression(m.caseBlock.clauses.filter(x => ts.isCaseClause(x)).map(x => x.expression))), m.caseBlock);
            if (ts.isElementAccessExpression(m) && !literal(m.argumentExpression)) return F.updateElementAccessExpression(m, m.expression, call('ix', m.argumentExpression));
            return m;
        };
        return ts.visitNode(file, visit);
    };
}
/// source text -> CommonJS text; `tag` names the functions in the evidence, null leaves the code as it is (native replay)
function compile(text, tag, fileName) {
    const r = ts.transpileModule(text, { fileName: fileName || 'm.ts', reportDiagnostics: true, compilerOptions: { target: ts.ScriptTarget.ES2019, module: ts.ModuleKind.CommonJS, useDefineForClassFields: false, experimentalDecorators: true, esModuleInterop: true, removeComments: true }, transformers: tag === null ? {} : { before: [instrument(tag)] } });
    const bad = r.diagnostics.filter(d => d.category === ts.DiagnosticCategory.Error);
    if (bad.length) throw new Error('TypeScript: ' + bad.map(d => ts.flattenDiagnosticMessageText(d.messageText, '\n')).join('; '));
    return r.outputText;
}
module.exports = { compile };
