// Reads pairs of versions, one pair per line, and prints how they read and compare.

#include <iostream>
#include <sstream>
#include <string>

#include <SemVer/Version.h>

int main()
{
	std::string line;
	while ( std::getline( std::cin, line ) ) {
		std::istringstream in( line );
		std::string a, b;
		in >> a >> b;

		const SemanticVersionNumber va( a ), vb( b );
		std::cout << va.toString() << ' ' << ( va < vb ) << ( vb < va ) << ( va == vb ) << ( va != vb ) << ' '
		          << va.nextBugfix().toString() << ' ' << va.nextMinor().toString() << ' ' << va.nextMajor().toString() << '\n';
	}
	return 0;
}
