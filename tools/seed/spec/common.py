def main(body, imports=()):
    imp="".join(f'\t"{i}"\n' for i in ("fmt","os","vjcorp/t")+tuple(imports))
    return f"""package main

import (
{imp})

func fail(f string, a ...any) {{
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}}

func must(err error) {{
	if err != nil {{
		fail("unexpected error: %v", err)
	}}
}}

func main() {{
{body}
}}
"""
