"""Planted bugs: id, property, edits (file, old text, new text), what is needed to see it, demonstration."""
INT = "Projects/Core/Core/AST/TreeInterpreter.cpp"
OBJ = "Projects/Core/Core/Object.cpp"

BUGS = []


def bug(id, property, edits, needs, breaks, prog=None, expect=None, **kw):
    b = {"id": id, "property": property, "edits": edits, "needs": needs, "breaks": breaks}
    if prog is not None:
        b["prog"], b["expect"] = prog, expect
    b.update(kw)
    BUGS.append(b)


MAIN = "public int Main(int argc, string args) modify throws\n{\n%s\n}\n"

bug("L02-switch-break", "L02", [(INT,
    "			case Runtime::ControlFlow::Break: mControlFlow = Runtime::ControlFlow::Normal; return;		// no further processing, reset current control flow state",
    "			case Runtime::ControlFlow::Break: if ( caseMatched || !mFrame->allowBreakAndContinue() ) { mControlFlow = Runtime::ControlFlow::Normal; } return;		// no further processing, reset current control flow state")],
    "a break in the default block of a switch inside a loop",
    "break in a default block leaves the block around the switch as well",
    MAIN % """	for ( int i = 0; i < 2; i++ ) {
		switch ( i ) {
			case 5: { print("five"); break; }
			default: { print("default"); break; }
		}
		print("after " + i);
	}
	return 0;""", "default\nafter 0\ndefault\nafter 1")

bug("L02-foreach-break", "L02", [(INT,
    "			case Runtime::ControlFlow::Break: mControlFlow = Runtime::ControlFlow::Normal; return;\n			case Runtime::ControlFlow::Continue: mControlFlow = Runtime::ControlFlow::Normal; break;\n			case Runtime::ControlFlow::ExitProgram: mControlFlow = Runtime::ControlFlow::ExitProgram; return;\n			case Runtime::ControlFlow::Normal: mControlFlow = Runtime::ControlFlow::Normal; break;\n			case Runtime::ControlFlow::Return: mControlFlow = Runtime::ControlFlow::Return; return;\n			case Runtime::ControlFlow::Throw: mControlFlow = Runtime::ControlFlow::Throw; return;\n		}\n	}\n}\n\nvoid TreeInterpreter::visitIf",
    "			case Runtime::ControlFlow::Break: return;\n			case Runtime::ControlFlow::Continue: mControlFlow = Runtime::ControlFlow::Normal; break;\n			case Runtime::ControlFlow::ExitProgram: mControlFlow = Runtime::ControlFlow::ExitProgram; return;\n			case Runtime::ControlFlow::Normal: mControlFlow = Runtime::ControlFlow::Normal; break;\n			case Runtime::ControlFlow::Return: mControlFlow = Runtime::ControlFlow::Return; return;\n			case Runtime::ControlFlow::Throw: mControlFlow = Runtime::ControlFlow::Throw; return;\n		}\n	}\n}\n\nvoid TreeInterpreter::visitIf")],
    "a break inside a foreach loop with more statements behind the loop",
    "break in a foreach also leaves the block around the loop",
    '''import System.Collections.List;
''' + MAIN % '''	List<int> l = new List<int>();
	l.push_back(1);
	l.push_back(2);
	for ( int i = 0; i < 2; i++ ) {
		foreach ( int x : l ) {
			print("x " + x);
			break;
		}
		print("after " + i);
	}
	return 0;''', "x 1\nafter 0\nx 1\nafter 1")

bug("L03-finally-exit", "L03", [(INT,
    "	if ( node->mFinallyBlock ) {\n		// reset",
    "	if ( node->mFinallyBlock && tmpControlFlow != Runtime::ControlFlow::Return ) {\n		// reset")],
    "a return statement inside a try or catch block that has a finally block",
    "the finally block is skipped when the try statement is left by return",
    """private int f() modify
{
	try {
		return 3;
	}
	finally {
		print("finally");
	}
	return 4;
}
""" + MAIN % """	print("f " + f());
	return 0;""", "finally\nf 3")

bug("L03-second-handler", "L03", [(INT,
    "			// only process one catch-block\n			break;",
    "			// only process one catch-block\n			if ( mControlFlow != Runtime::ControlFlow::Throw ) {\n				break;\n			}")],
    "a handler that rethrows, followed by another matching handler of the same try statement",
    "an exception thrown by a handler is delivered to a later handler of the same try statement",
    """private void f() modify throws
{
	try {
		throw 7;
	}
	catch ( int i ) {
		print("first " + i);
		throw i;
	}
	catch {
		print("second");
	}
}
""" + MAIN % """	try {
		f();
	}
	catch ( int i ) {
		print("outer " + i);
	}
	return 0;""", "first 7\nouter 7")

bug("L04-release-first", "L04", [(OBJ,
    "	Reference old = mReference;\n\n	mReference = ref;\n	Controller::Instance().memory()->add(mReference);\n",
    "	if ( mReference.isValid() && !(mReference < ref) && !(ref < mReference) ) {\n		// nothing to do\n		Controller::Instance().memory()->add(mReference);\n		return;\n	}\n\n	Reference old = mReference;\n\n	mReference = ref;\n	Controller::Instance().memory()->add(mReference);\n")],
    "a variable that is assigned the object it already refers to",
    "assigning an object to a variable that already holds it counts the reference twice, the object is never destroyed",
    """public object R {
	public void Destructor() { print("gone"); }
}
private void f() modify
{
	R a = new R();
	R b = a;
	b = a;
	print("end of f");
}
""" + MAIN % """	f();
	print("after f");
	return 0;""", "end of f\ngone\nafter f")

bug("L05-finally-scope", "L05", [(INT,
    "		visitStatements(node->mFinallyBlock);", "		process(node->mFinallyBlock);")],
    "a variable declared in a finally block with the name of a variable declared around the try statement",
    "variables of a finally block are put into the scope around the try statement",
    MAIN % """	int x = 1;
	try {
		print("try");
	}
	finally {
		int x = 2;
		print("finally " + x);
	}
	print("x " + x);
	return 0;""", "try\nfinally 2\nx 1")

GEN = "Projects/Core/Core/AST/TreeGenerator.cpp"

bug("L01-divide-group", "L01", [(GEN,
    "		Node* right = parseInfix(++start);\n		const std::string type = resolveType(start, factor, operation, right);\n\n\n		const auto* lhs = dynamic_cast<Expression*>(factor);",
    "		Node* right = op == Token::Type::MATH_DIVIDE ? parseFactor(++start) : parseInfix(++start);\n		const std::string type = resolveType(start, factor, operation, right);\n\n\n		const auto* lhs = dynamic_cast<Expression*>(factor);")],
    "a division followed by another factor, e.g. a / b * c",
    "a division takes everything that follows in the same product as its right side",
    MAIN % '''	int a = 24;
	print("" + (a / 4 * 3));
	print("" + (a / 2 / 3));
	print("" + (a * 2 / 3));
	return 0;''', "18\n4\n16")

bug("L01-operand-order", "L01", [(INT,
    "	Runtime::Object left;\n	// evaluate left expression\n	evaluate(exp->mLHS, &left);\n\n	Runtime::Object right;\n	// evaluate right expression\n	evaluate(exp->mRHS, &right);\n\n	switch ( exp->mOperation.type() ) {\n		// bit expressions",
    "	Runtime::Object left;\n	Runtime::Object right;\n\n	if ( dynamic_cast<SymbolExpression*>(exp->mLHS) ) {\n		// plain symbols don't need any evaluation of their own\n		evaluate(exp->mRHS, &right);\n		evaluate(exp->mLHS, &left);\n	}\n	else {\n		// evaluate left expression\n		evaluate(exp->mLHS, &left);\n		// evaluate right expression\n		evaluate(exp->mRHS, &right);\n	}\n\n	switch ( exp->mOperation.type() ) {\n		// bit expressions")],
    "an expression whose right operand changes the variable that is its left operand",
    "the right operand is evaluated before a left operand that is a plain variable",
    MAIN % '''	int i = 1;
	int r = i + i++;
	print("" + r);
	return 0;''', "3")

DEEP = """		while ( inner->mSymbolExpression ) {
			inner = inner->mSymbolExpression;
		}

		inner->mSymbolExpression = new DesigntimeSymbolExpression("operator" + operation.content(), rhs->getResultType(), PrototypeConstraints(), false);
		inner->mSymbolExpression->mSurroundingScope = blueprint;

		ExpressionList params;
		params.emplace_back(rhs);

		factor ="""

bug("L06-deep-operator", "L06", [(GEN, DEEP, DEEP.replace("while (", "if ("))],
    "a multiplication operator of an object that is a member of a member",
    "the operator of the wrong object on a member path is called",
    """public object V {
	public int v;
	public void Constructor(int x) { v = x; }
	public int operator*(int x) const { return v * x; }
}
public object B { public V a; public void Constructor() { a = new V(7); } }
public object C { public B b; public void Constructor() { b = new B(); } }
""" + MAIN % """	C c = new C();
	print("r " + (c.b.a * 3));
	return 0;""", "r 21")

bug("L06-content-unequal", "L06", [(GEN,
    "		if ( op == Token::Type::COMPARE_UNEQUAL || op == Token::Type::COMPARE_UNEQUAL_CONTENT ) {",
    "		if ( op == Token::Type::COMPARE_UNEQUAL ) {")],
    "two objects with their own operator== compared with !==",
    "!== gives the result of === for objects",
    """public object V {
	public int v;
	public void Constructor(int x) { v = x; }
	public bool operator==(V other const) const { return v == other.v; }
}
""" + MAIN % """	V a = new V(7);
	V b = new V(7);
	V c = new V(8);
	print("ab " + (a !== b) + " ac " + (a !== c));
	return 0;""", "ab 0 ac 1")

REP = "Projects/Core/Core/VirtualMachine/Repository.cpp"

bug("L07-argument-count-name", "L07", [("Projects/Core/Core/Common/PrototypeConstraint.cpp",
    "		if ( !result.empty() ) {\n			result += \",\";\n		}\n\n		result += lookupType(it.mDesignType);",
    "		if ( !result.empty() ) {\n			result += \",\";\n		}\n\n		result += result.empty() ? lookupType(it.mDesignType) : lookupType(other.back().mDesignType);")],
    "a method of a generic class with a result of a generic type with three parameters",
    "the middle type argument in the signature is replaced by the last one",
    """public object Tri<A, B, C> {
	public A a;
	public B b;
	public C c;
	public void Constructor(A x, B y, C z) { a = x; b = y; c = z; }
	public Tri<A, B, C> twin() modify { return new Tri<A, B, C>(a, b, c); }
}
""" + MAIN % """	Tri<int, string, bool> t = new Tri<int, string, bool>(1, "s", true);
	Tri<int, string, bool> u = t.twin();
	print(u.b);
	return 0;""", "s")

bug("L07-exchanged-result", "L07", [("Projects/Core/Core/Common/PrototypeConstraint.cpp",
    "	for ( const auto& it : other ) {\n		if ( !result.empty() ) {",
    "	for ( const auto& it : (other.size() == size() ? *this : other) ) {\n		if ( !result.empty() ) {")],
    "a method of a generic class with two parameters whose result type exchanges them",
    "the type arguments of the result are taken in the order of the class",
    """public object Pair<K, V> {
	public K k;
	public V v;
	public void Constructor(K a, V b) { k = a; v = b; }
	public Pair<V, K> flip() modify { return new Pair<V, K>(v, k); }
}
""" + MAIN % """	Pair<int, string> p = new Pair<int, string>(1, "s");
	print(p.flip().k);
	return 0;""", "s")

bug("L07-bound-itself", "L07", [(REP,
    "!constIt->mConstraint.empty() && generic->QualifiedTypename() != constIt->mConstraint && !generic->inheritsFrom(constIt->mConstraint)",
    "!constIt->mConstraint.empty() && !generic->inheritsFrom(constIt->mConstraint)")],
    "a generic class with a bound used with the bound itself",
    "the class named as bound is not accepted as type argument",
    """public object A { public string f() const { return "A.f"; } }
public object Box<T: A> {
	public T v;
	public void Constructor(T x) { v = x; }
	public string say() const { return v.f(); }
}
""" + MAIN % """	Box<A> b = new Box<A>(new A());
	print(b.say());
	return 0;""", "A.f")

TG = "Projects/Core/Core/AST/TreeGenerator.cpp"
TS = "Projects/Core/Core/VirtualMachine/TypeSystem.cpp"
BPO = "Projects/Core/Core/Designtime/BluePrintObject.cpp"

bug("S01-double-int64", "S01", [(TS,
    "	define(DoubleType::TYPENAME, Token::Type::MATH_ADDITION, Int64Type::TYPENAME,  DoubleType::TYPENAME);\n", "")],
    "the sum of a double and an int64 value",
    "a well-typed addition is rejected",
    MAIN % """	double d = 1.5d;
	int64 i = 2;
	double s = d + i;
	print("done");
	return 0;""", "done")

bug("S01-return-convertible", "S01", [(TG,
    "	if ( mMethod->QualifiedTypename() != returnType ) {",
    "	if ( mMethod->QualifiedTypename() != returnType && !mRepository->exists(mMethod->QualifiedTypename(), Token::Type::ASSIGN, returnType) ) {")],
    "a return statement whose value has another, convertible type than the method",
    "the value of a return statement may have a type other than the declared one",
    """private int f(float x) const
{
	return x;
}
""" + MAIN % """	print("start");
	int i = f(1.5f);
	return 0;""", "", rc=255)

bug("S02-const-local-in-constructor", "S02", [(TG,
    "	if ( lhs->isConst() && !(mAllowConstModify && lhs->isMember()) ) {\n		throw Common::Exceptions::ConstCorrectnessViolated(\"tried to modify const symbol '\" + token->content()",
    "	if ( lhs->isConst() && !mAllowConstModify ) {\n		throw Common::Exceptions::ConstCorrectnessViolated(\"tried to modify const symbol '\" + token->content()")],
    "a constant local variable of a constructor that is incremented",
    "constants of constructors can be incremented",
    """public object A {
	public void Constructor()
	{
		int k const = 3;
		k++;
		print("k " + k);
	}
}
""" + MAIN % """	A a = new A();
	return 0;""", "", rc=255)

bug("S02-later-reference", "S02", [(TG,
    "	for ( ; expectedIt != expectedParams.cend(); ++expectedIt ) {\n		if ( providedIt != params.end() ) {\n			// validate constness\n			if ( expectedIt->mAccessMode == AccessMode::ByReference &&",
    "	for ( ; expectedIt != expectedParams.cend(); ++expectedIt ) {\n		if ( providedIt != params.end() ) {\n			// validate constness\n			if ( expectedIt->mAccessMode == AccessMode::ByReference && expectedParams.cbegin()->mAccessMode == AccessMode::ByReference &&")],
    "a constant passed to a reference parameter that follows a value parameter",
    "the constant is changed by the called method",
    """private void add(int by, int x ref) modify
{
	x = x + by;
}
""" + MAIN % """	print("start");
	int k const = 3;
	add(1, k);
	print("k " + k);
	return 0;""", "", rc=255)

bug("S03-base-private", "S03", [(TG,
    "			visibility = Visibility::Protected;		// this allows us to access protected",
    "			visibility = Visibility::Private;		// this allows us to access protected")],
    "a private member of the base class reached through base",
    "private members are accessible through base",
    """public object A {
	private int secret = 3;
}
public object B extends A {
	public int leak() const { return base.secret; }
}
""" + MAIN % """	print("start");
	return 0;""", "", rc=255)

bug("S03-self-inheritance", "S03", [(BPO,
    "			if ( symIt->second->getVisibility() >= Visibility::Protected ) {",
    "			if ( symIt->second->getVisibility() >= Visibility::Private ) {")],
    "a private field of the base class used by a derived class",
    "derived classes can use private fields of their base class",
    """public object A {
	private int secret = 3;
}
public object B extends A {
	public int leak() const { return secret; }
}
""" + MAIN % """	print("start");
	return 0;""", "", rc=255)

bug("S04-default-block", "S04", [(TG,
    "			defaultStatement = process_scope(token, true, true);",
    "			defaultStatement = process_scope(token, true);")],
    "a default block that ends without a jump",
    "a default block without break, continue, return or throw is accepted",
    MAIN % """	print("start");
	switch ( argc ) {
		case 7: { print("seven"); break; }
		default: { print("default"); }
	}
	return 0;""", "", rc=255)

bug("S04-thrown-before-try", "S04", [(TG,
    "	mThrownExceptions.insert(thrownExceptions.begin(), thrownExceptions.end());\n\n	expect(Token::Type::BRACKET_CURLY_CLOSE, token);",
    "	if ( !catchStatements.empty() ) {\n		mThrownExceptions.insert(thrownExceptions.begin(), thrownExceptions.end());\n	}\n\n	expect(Token::Type::BRACKET_CURLY_CLOSE, token);")],
    "a throw statement in front of a try statement without catch blocks",
    "the exception of the throw statement needs no throws declaration",
    """private void f(bool b) const
{
	if ( b ) {
		throw 1;
	}
	try {
		print("try");
	}
	finally {
		print("finally");
	}
}
""" + MAIN % """	print("start");
	f(false);
	return 0;""", "", rc=255)

ANA = "Projects/Core/Core/Designtime/Analyser.cpp"
VM = "Projects/Core/Core/VirtualMachine/VirtualMachine.cpp"
MULTI = r"""#!/bin/bash
# exits 0 if slang behaves as stated in the property
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/lib"
%s
SLANG_LIBRARY="$d/lib" timeout 20 ./_build/bin/slang/slang %s "$d/main.os" > "$d/out" 2> "$d/err"
rc=$?
cat "$d/out" "$d/err"
[ $rc -eq %d ] || { echo "exit status $rc"; exit 1; }
printf '%s' > "$d/expected"
diff "$d/expected" "$d/out"
"""

bug("L08-duplicate-number", "L08", [(ANA,
    "		if ( previous_value.toInt() >= value.toInt() ) {",
    "		if ( previous_value.toInt() > value.toInt() ) {")],
    "two values of an enumeration that are given the same number",
    "different values of an enumeration may have the same number and compare equal",
    """public enum Level { LOW = 2, MIDDLE = 5, HIGH = 5; }
""" + MAIN % """	print("start");
	return 0;""", "", rc=255)

bug("L08-number-as-value", "L08", [(REP,
    "		//define(_int32, Token::Type::ASSIGN, blueprint->QualifiedTypename(), blueprint->QualifiedTypename());",
    "		define(blueprint->QualifiedTypename(), Token::Type::ASSIGN, _int32, blueprint->QualifiedTypename());")],
    "an int assigned to a variable of an enumeration type",
    "variables of an enumeration type can hold numbers that are none of its values",
    """public enum Level { LOW = 2, HIGH = 5; }
""" + MAIN % """	print("start");
	int i = 3;
	Level l = i;
	return 0;""", "", rc=255)

bug("M01-package-first", "M01", [(VM,
    "		file = path + \".os\";",
    "		file = Utils::Tools::Files::BuildPath( path, std::string( \"/All\" ) ) + \".slang\";"), (VM,
    "		file = Utils::Tools::Files::BuildPath( path, std::string( \"/All\" ) ) + \".slang\";\n		if ( Utils::Tools::Files::exists( file ) ) {\n			return Utils::Tools::Files::GetFullname( file );\n		}\n\n		// (4)",
    "		file = path + \".os\";\n		if ( Utils::Tools::Files::exists( file ) ) {\n			return Utils::Tools::Files::GetFullname( file );\n		}\n\n		// (4)")],
    "a module A.os next to a folder A with an All.slang",
    "the folder's All.slang is loaded instead of the module",
    demo=MULTI % (r"""mkdir -p "$d/A"
printf 'import A;\npublic int Main(int argc, string args) { print(a()); return 0; }\n' > "$d/main.os"
printf 'public string a() const { return "file"; }\n' > "$d/A.os"
printf 'public string a() const { return "folder"; }\n' > "$d/A/All.slang"
""", "", 0, r"file\n"))

bug("M01-folder-order", "M01", [(VM,
    "		if ( loadLibrary( buildFilename( currentFolder, *libIt ), library ) ) {\n			libIt = libraryImports.erase( libIt );",
    "		if ( mLibraryFolders.size() < 2 && loadLibrary( buildFilename( currentFolder, *libIt ), library ) ) {\n			libIt = libraryImports.erase( libIt );")],
    "a module with the same name as a module of another library folder, imported by a neighbour",
    "the module of the other folder is loaded instead of the one next to the importing file",
    demo=MULTI % (r"""mkdir -p "$d/lib/p" "$d/a"
printf 'import p.A;\npublic int Main(int argc, string args) { print(a()); return 0; }\n' > "$d/main.os"
printf 'import B;\npublic string a() const { return "a" + b(); }\n' > "$d/lib/p/A.os"
printf 'public string b() const { return "b"; }\n' > "$d/lib/p/B.os"
printf 'public string b() const { return "wrong"; }\n' > "$d/lib/B.os"
printf 'public string b() const { return "wrong"; }\n' > "$d/B.os"
""", "", 0, r"ab\n"))

bug("S05-abstract-classes", "S05", [(TG,
    "	if ( object->isInterface() ) {\n		// interfaces have no implementation",
    "	if ( object->isInterface() || object->isAbstract() ) {\n		// interfaces have no implementation")],
    "an error in a method of an abstract class",
    "the program is started although a method of an abstract class contains an error",
    """public abstract object A {
	public abstract int f() const;
	public int g() const { return nobody; }
}
""" + MAIN % """	print("start");
	return 0;""", "", rc=255)

bug("S05-one-error", "S05", [(VM,
    "	auto errors = generator.hasErrors();\n	if ( errors ) {",
    "	auto errors = generator.hasErrors();\n	if ( errors && !mSettings.DoSyntaxCheck ) {")],
    "--syntax for a program with an error in the body of a function",
    "the syntax check finds no errors in a program that the interpreter rejects",
    demo=MULTI % (r"""printf 'public int f() const { return nobody; }\npublic int Main(int argc, string args) { print("start"); return 0; }\n' > "$d/main.os"
""", "--syntax", 255, ""))

TOK = "Projects/Core/Core/Designtime/Parser/Tokenizer.cpp"
CLI = "Projects/slang/main.cpp"
ATV = "Projects/Core/Core/Runtime/AtomicValue.cpp"
STR = "Projects/Utils/Tools/Strings.cpp"

bug("X01-hash-in-string", "X01", [(TOK,
    "		if ( !isMultiLineComment && !isSingleLineComment && !isString && currentChar == '#' ) {",
    "		if ( !isMultiLineComment && !isSingleLineComment && ( !isString || previousChar == '\"' ) && currentChar == '#' ) {")],
    "a string that starts with #",
    "the rest of the line behind a string that starts with # is taken as a comment",
    MAIN % """	print("a#b");
	print("#"
		+ "c");
	return 0;""", "a#b\n#c")

bug("X02-half-is-false", "X02", [(ATV,
    "        case Type::DOUBLE:      return mValue.double_ != 0.0;",
    "        case Type::DOUBLE:      return toInt() != 0;")],
    "a double between -1 and 1 used as a bool",
    "a double smaller than one becomes false",
    MAIN % """	double d = 0.5d;
	bool b = d;
	print("" + b);
	d = 2.5d;
	b = d;
	print("" + b);
	return 0;""", "1\n1")

bug("X02-blank-false", "X02", [(STR,
    "    auto normalizedStr = toLowerCase( stringTrim( str ) );",
    "    auto normalizedStr = stringTrim( toLowerCase( str ).substr( 0, 5 ) );")],
    "a string starting with the word false, or with blanks before it, as a bool",
    "texts that only start with false become false",
    MAIN % """	string s = "falsehood";
	bool b = cast<bool>( s );
	print("" + b);
	return 0;""", "1")

bug("M02-nested-same-name", "M02", [(ANA,
    "		Symbol* symbol = mScope->resolve(name, true, Visibility::Designtime);\n		if ( !symbol ) {\n			space = new Common::Namespace(name, mScope);",
    "		Symbol* symbol = mScope->resolve(name, mScope == tmpScope, Visibility::Designtime);\n		if ( !symbol ) {\n			space = new Common::Namespace(name, mScope);")],
    "a namespace A.B with a namespace B outside of A",
    "the declarations of A.B become declarations of the outer B",
    """public namespace B { public string f() const { return "B"; } }
public namespace A.B { public string g() const { return "A.B"; } }
""" + MAIN % """	print(B.f());
	print(A.B.g());
	return 0;""", "B\nA.B")

bug("R01-empty-argument", "R01", [(CLI,
    "			params.emplace_back( argv[i] );\n			paramStr += \"\\n\";",
    "			if ( argv[i][0] ) {\n				params.emplace_back( argv[i] );\n			}\n			paramStr += \"\\n\";")],
    "an empty argument on the command line",
    "empty arguments are not counted",
    MAIN % """	print("" + argc);
	return 0;""", "3", args='a ""')

bug("R01-exit-high", "R01", [(CLI,
    "			return Controller::Instance().thread( 0 )->exception().getData()->getValue().toInt();",
    "			return static_cast<int8_t>( Controller::Instance().thread( 0 )->exception().getData()->getValue().toInt() ) > 0 ? Controller::Instance().thread( 0 )->exception().getData()->getValue().toInt() : 0;")],
    "exit with a status of 128 or more",
    "the status of a program that exits with a value above 127 or a negative one is 0",
    MAIN % """	print("start");
	exit(200);
	return 0;""", "start", rc=200)

LST = "Projects/Library/System/Collections/List.os"
MAP = "Projects/Library/System/Collections/Map.os"
STRO = "Projects/Library/System/String.os"
VER = "Projects/Utils/SemVer/Version.cpp"
SVO = "Projects/Library/libSemVer/SemVer.os"

bug("C01-push-after-erase", "C01", [(LST,
    "			prev.next = CollectionItem<T> null;\n			mLast = prev;\n",
    "			prev.next = CollectionItem<T> null;\n")],
    "a value pushed behind a list whose last item has been erased",
    "the value pushed afterwards is not in the list",
    "import System.Collections.List;\n" + MAIN % """	List<int> v = new List<int>();
	v.push_back(1);
	v.push_back(2);
	v.erase(1);
	v.push_back(3);
	string r;
	foreach ( int x : v ) { r += x; }
	print(r);
	return 0;""", "13")

bug("C01-map-remove-next", "C01", [(MAP,
    "				mItems.erase( index );\n				return;\n			}\n\n			index++;",
    "				mItems.erase( index );\n				return;\n			}\n\n			index += ( mItems.size() > 2 && !index ) ? 2 : 1;")],
    "a key removed from a map with three or more keys that is not its first key",
    "another key is removed",
    "import System.Collections.Map;\n" + MAIN % """	Map<int, int> m = new Map<int, int>();
	m.insert(1, 10);
	m.insert(2, 20);
	m.insert(3, 30);
	m.remove(2);
	print("" + m.contains(1) + m.contains(2) + m.contains(3));
	return 0;""", "101")

bug("C02-last-index-overlap", "C02", [(STRO,
    "		while ( ( index2 = IndexOf( str, index + 1 ) ) != -1 ) {\n			index = index2;",
    "		while ( ( index2 = IndexOf( str, index + ( ( index < 0 ) ? 1 : strlen( str ) ) ) ) != -1 ) {\n			index = index2;")],
    "a string whose last occurrence overlaps an earlier one",
    "LastIndexOf misses overlapping occurrences",
    "import System.String;\n" + MAIN % """	String s = new String("aaa");
	print("" + s.LastIndexOf("aa"));
	return 0;""", "1")

bug("C02-contains-empty", "C02", [(STRO,
    "		return strfind( mValue, value, 0 ) >= 0;",
    "		return strfind( mValue, value, 0 ) >= 0 && ( strlen( value ) < mSize || value == mValue ) && strlen( value ) > 0;")],
    "a String asked whether it contains the empty string",
    "a String does not contain the empty string any more",
    "import System.String;\n" + MAIN % """	String s = new String("abc");
	print("" + s.Contains("") + s.Contains("a"));
	return 0;""", "11")

bug("V01-build-without-label", "V01", [(VER,
    "	Utils::Tools::splitBy( version, '+', label, buildMetadata );\n	// 3 - alpha\n	Utils::Tools::splitBy( label, '-', bugfix, label );",
    "	Utils::Tools::splitBy( version, '-', bugfix, label );\n	// 3 - alpha\n	Utils::Tools::splitBy( label, '+', label, buildMetadata );")],
    "a version with build metadata but without a label",
    "the build metadata of a version without a label is lost",
    demo='''d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cat > "$d/t.cpp" <<'T'
#include <SemVer/Version.h>
int main() { return SemanticVersionNumber( "1.0.0+001" ).toString() == "1.0.0+001" ? 0 : 1; }
T
g++ -std=c++14 -IProjects/Utils -o "$d/t" "$d/t.cpp" -Wl,--start-group $(find _build -name "libUtils*.a") -Wl,--end-group || exit 2
"$d/t"
''')

FSK = "Projects/Extensions/LIBC/stdio/fseek.h"
FGC = "Projects/Extensions/LIBC/stdio/fgetc.h"
LPD = "Projects/Extensions/System/Strings/StrLPad.h"
PKG = "Projects/slang-pkg/Application/Application.cpp"

FILES = '''d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cat > "$d/t.os" <<'T'
%s
T
root=$PWD
cd "$d" && test "$(SLANG_LIBRARY="$root/Projects/Library" "$root/_build/bin/slang/slang" t.os)" = "%s"
'''
bug("F01-seek-backwards", "F01", [(FSK,
    "fseek( stdio_t::FileHandles[param_handle], param_offset, param_origin );",
    "fseek( stdio_t::FileHandles[param_handle], ( param_offset < 0 && param_origin == SEEK_CUR ) ? 0 : param_offset, param_origin );")],
    "a seek backwards from the current position",
    "seeking backwards from the current position stays where it is",
    demo=FILES % (MAIN % """	int h = fopen("f", "w+");
	fwrites(h, "abcdef");
	fseek(h, -2, SEEK_CUR);
	print("" + ftell(h));
	return 0;""", "4"))

bug("F01-code-sign", "F01", [(FGC,
    "std::to_string( fgetc( stdio_t::FileHandles[ param_stream ] ) )",
    "std::to_string( static_cast<char>( fgetc( stdio_t::FileHandles[ param_stream ] ) ) )")],
    "a byte above 127 read with fgetc",
    "fgetc returns a negative number for bytes above 127",
    demo=FILES % (MAIN % """	int h = fopen("f", "w+");
	fputc(200, h);
	rewind(h);
	print("" + fgetc(h));
	return 0;""", "200"))

bug("C02-pad-empty", "C02", [(LPD,
    "		if ( param_length > param_value.size() ) {",
    "		if ( param_length > param_value.size() && !param_value.empty() ) {")],
    "an empty string padded on the left",
    "padding an empty string on the left returns the empty string",
    MAIN % """	print("[" + strlpad("", 3, "x") + "]");
	return 0;""", "[xxx]")

LIBRARY = '''d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
pkg=$PWD/_build/bin/slang-pkg/slang-pkg
unset SLANG_LIBRARY
mkdir -p "$d/lib" "$d/remote/modules"
module() {  # name version dependencies
	mkdir -p "$d/make/$1" "$d/remote/modules/$1/$2"
	echo "{\\"name\\":\\"$1\\",\\"name_short\\":\\"$1\\",\\"version\\":\\"$2\\",\\"description\\":\\"d\\",\\"dependencies\\":[$3],\\"target\\":{\\"type\\":\\"internal\\"}}" > "$d/make/$1/module.json"
	cp "$d/make/$1/module.json" "$d/remote/modules/$1/$2/module.json"
	tar -C "$d/make" -czf "$d/remote/modules/$1/$2/module.tar.gz" "$1"
}
index() {
	echo "{\\"modules\\":[$1]}" > "$d/remote/modules/index.json"
}
cd "$d/lib"
"$pkg" --locallibrary > /dev/null
echo "{\\"repository\\":{\\"name\\":\\"main\\",\\"url\\":\\"file://$d/remote\\"},\\"restrictions\\":null}" > .slang/config.json
'''
bug("K01-exact-maximum", "K01", [(PKG,
    "if ( mLocalRestriction.mMaxVersion.isValid() && mLocalRestriction.mMaxVersion < module.mVersion ) {",
    "if ( mLocalRestriction.mMaxVersion.isValid() && !( module.mVersion < mLocalRestriction.mMaxVersion ) ) {")],
    "a restriction whose maximum is the version to install",
    "a module cannot be installed in the maximum version that its restriction allows",
    demo=LIBRARY + '''module A 1.0.0
index '{"name":"A","version":"1.0.0"}'
"$pkg" update > /dev/null
"$pkg" restrict A :1.0.0
"$pkg" install A > /dev/null 2>&1
test -f A/module.json
''')

bug("K01-upgrade-selection", "K01", [(PKG,
    "        if ( it == value ) {\n            return true;",
    "        if ( it.find( value ) == 0 ) {\n            return true;")],
    "an upgrade of one module while another outdated module's name begins it",
    "upgrading JsonRpc upgrades the outdated module Json as well",
    demo=LIBRARY + '''module A 1.0.0
module AB 1.0.0
module A 2.0.0
module AB 2.0.0
index '{"name":"A","version":"2.0.0"},{"name":"AB","version":"2.0.0"}'
"$pkg" update > /dev/null
"$pkg" install A:1.0.0 AB:1.0.0 > /dev/null 2>&1
"$pkg" upgrade AB > /dev/null 2>&1
grep -q '"1.0.0"' A/module.json && grep -q '"2.0.0"' AB/module.json
''')

bug("K01-upgrade-too-old", "K01", [(PKG,
    "localModule.mShortName == remoteModule.mShortName && localModule.mVersion < remoteModule.mVersion",
    "localModule.mShortName == remoteModule.mShortName && localModule.mVersion < remoteModule.mVersion && checkRestrictions( localModule )")],
    "an installed module older than its restriction's minimum",
    "a module that is too old for its restriction is not upgraded",
    demo=LIBRARY + '''module A 1.0.0
module A 2.0.0
index '{"name":"A","version":"2.0.0"}'
"$pkg" update > /dev/null
"$pkg" install A:1.0.0 > /dev/null 2>&1
"$pkg" restrict A 1.5.0:
"$pkg" upgrade > /dev/null 2>&1
grep -q '"2.0.0"' A/module.json
''')


CND = "Projects/Core/Debugger/Condition.cpp"
DBG = "Projects/Core/Debugger/Debugger.cpp"
LCL = "Projects/slang-dbg/LocalClient/LocalClient.cpp"
SESSION = '''d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cat > "$d/t.os" <<'T'
public int twice(int a) {
	int x = a + a;
	return x;
}
public int Main(int argc, string args) modify throws
{
	int y = twice(1);
	y = twice(y);
	print("y " + y);
	return 0;
}
T
root=$PWD
cd "$d"
printf '%s' | SLANG_LIBRARY="$root/Projects/Library" "$root/_build/bin/slang-dbg/slang-dbg" t.os > out.txt
test "$(grep -c '%s' out.txt)" = %d
'''
bug("D01-less-equal", "D01", [(CND, "operator_binary_less_equal(left, right)", "operator_binary_less(left, right)")],
    "a breakpoint with the condition <= where both sides are equal",
    "the breakpoint does not stop", demo=SESSION % (r"b t.os 2 a <= 1\nr\nc\nc\nq\n", "2 .*reached", 1))
bug("D01-outer-frame", "D01", [(LCL, "->frame( mCurrentFrameId )->getScope()", "->currentFrame()->getScope()")],
    "a variable of a calling method printed after its frame has been selected",
    "variables of the called method are shown", demo=SESSION % (r"b t.os 3\nr\nc\nframe 0\np x\nq\n", "int x modify", 0))
bug("D01-same-line", "D01", [(DBG, "	if ( it != mBreakPoints.end() ) {\n		mBreakPoints.erase(it);\n	}\n\n", "	if ( it != mBreakPoints.end() && !it->getCondition().isValid() ) {\n		mBreakPoints.erase(it);\n	}\n\n")],
    "a breakpoint without condition on a line that has one with a condition",
    "the breakpoint keeps its old condition", demo=SESSION % (r"b t.os 2 a > 5\nb t.os 2\nr\nc\nc\nq\n", "2 .*reached", 2))

MTH = "Projects/Extensions/LIBC/math/"
bug("N01-round-half", "N01", [(MTH + "round.h", "		*result = Runtime::DoubleType(round(param_arg));", "		*result = Runtime::DoubleType(floor(param_arg + 0.5));")],
    "a negative number exactly between two whole numbers", "it is rounded towards zero",
    MAIN % """	print("" + round(-2.5d) + " " + round(2.5d));
	return 0;""", "-3 3")
bug("N01-remainder-tie", "N01", [(MTH + "remainder.h", "Runtime::FloatType(remainderf(param_x, param_y))", "Runtime::FloatType(param_x - param_y * roundf(param_x / param_y))")],
    "a float quotient exactly between two whole numbers of which the smaller one is even", "the remainder has the wrong sign",
    MAIN % """	print("" + remainderf(5.0f, 2.0f));
	return 0;""", "1")
bug("N01-atan2-quadrant", "N01", [(MTH + "atan2.h", "Runtime::FloatType(atan2f(param_x, param_y))", "Runtime::FloatType(param_y == 0.f ? atan2f(param_x, param_y) : atanf(param_x / param_y))")],
    "a point with a negative first coordinate, as floats", "the angle is the one of the opposite point",
    MAIN % """	print("" + (atan2f(1.0f, -1.0f) > 2.0f));
	return 0;""", "1")

STR = "Projects/Extensions/System/Strings/"
bug("T01-before-1970", "T01", [(STR + "StrFTime.h", "if ( param_time ) {", "if ( param_time > 0 ) {")],
    "a time before 1970", "the current time is written instead",
    MAIN % """	print(strftime("%Y-%m-%d", 0 - 86400 * 365));
	return 0;""", "1969-01-01")
bug("T01-read-zone", "T01", [(STR + "StrPTime.h", "auto time = mktime( &tm );", "auto time = timegm( &tm );")],
    "a time zone other than UTC", "the text is read as if it showed the time in UTC",
    demo=MULTI % (r"""export TZ=EST5
cat > "$d/main.os" <<'EOF'
public int Main(int argc, string args) modify throws
{
	print("" + strptime("%Y-%m-%d %H:%M:%S", strftime("%Y-%m-%d %H:%M:%S", 1000000000)));
	return 0;
}
EOF""", "", 0, r"1000000000\n"))
bug("L04-private-destructor", "L04", [(OBJ, "resolveMethod(RESERVED_WORD_DESTRUCTOR, params, true, Visibility::Private)", "resolveMethod(RESERVED_WORD_DESTRUCTOR, params, true, Visibility::Protected)")],
    "an object whose destructor is private", "the destructor is not run",
    """public object P {
	public void Constructor() { print("made"); }
	private void Destructor() { print("destroyed"); }
}
public int Main(int argc, string args) modify throws {
	P p = new P();
	delete p;
	print("end");
	return 0;
}
""", "made\ndestroyed\nend")
bug("T01-epoch-summer", "T01", [(STR + "StrFTime.h", "std::tm tm = *std::localtime( &time );", "std::tm tm = *std::localtime( &time ); tm.tm_isdst = 0;")],
    "the directive for the number of seconds, while summer time is in effect", "the number is an hour too high",
    demo=MULTI % (r"""export TZ=EST5EDT,M3.2.0,M11.1.0
cat > "$d/main.os" <<'EOF'
public int Main(int argc, string args) modify throws
{
	print(strftime("%s", 1720000000));
	return 0;
}
EOF""", "", 0, r"1720000000\n"))
STDIO = "Projects/Extensions/LIBC/stdio/"
bug("F01-unget-sign", "F01", [(STDIO + "ungetc.h", "ungetc( param_ch, stdio_t", "ungetc( static_cast<signed char>( param_ch ), stdio_t")],
    "putting back the byte 255", "it is taken for the end of the file and lost",
    demo=MULTI % (r"""cat > "$d/main.os" <<EOF
public int Main(int argc, string args) modify throws
{
	int h = fopen("$d/data", "w+");
	fputc(255, h);
	fputc(65, h);
	rewind(h);
	print("" + fgetc(h));
	print("" + ungetc(255, h));
	print("" + fgetc(h));
	fclose(h);
	return 0;
}
EOF""", "", 0, r"255\n255\n255\n"))
