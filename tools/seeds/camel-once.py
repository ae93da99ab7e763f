PROPERTY="C28"
NEEDS="an option whose name has two or more capitals (useBranchTags, withTagMessage)"
BREAKS="only the first capital of an option name becomes a hyphen: --use-branchtags"
EDITS=[("npm/smd/src/optionsToStringArgs.ts",'''key.replace(/([A-Z])/g, "-$1").toLowerCase()''','''key.replace(/([A-Z])/, "-$1").toLowerCase()''')]
DEMO_FILES={"demo.sh":'''#!/bin/bash
D=$(mktemp -d); trap 'rm -rf -- "$D"' EXIT
cp npm/smd/src/*.ts "$D/"
echo '{"type":"module"}' > "$D/package.json"
cat > "$D/t.ts" <<'X'
import { optionsToStringArgs } from "./optionsToStringArgs.ts";
const got = JSON.stringify(optionsToStringArgs({ useBranchTags: true, withTagMessage: "Hi", tag: "v", ignoreTags: ["A", "b"], latest: false } as any));
const want = JSON.stringify(["--use-branch-tags", "--with-tag-message", "Hi", "--tag", "v", "--ignore-tags", "A", "--ignore-tags", "b"]);
if (got !== want) { console.log(got); process.exit(1); }
X
node --experimental-strip-types --no-warnings "$D/t.ts"
'''}
