# Template functions and predicates that only the generated code shows.
F='internal/gen/cpp/func.go'; T='internal/gen/templating/func.go'
def bug(p,*e): return [(x,'bug',list(e)) for x in p.split()]
CASES=sum([
 bug('C29',(T,'"toLowerUnderscored": strmanip.ToLowerUnderscored','"toLowerUnderscored": strings.ToLower')),
 bug('C27',(F,'case rsType.IsInt():','case rsType.IsEmpty():')),
 bug('C16',(F,'	return val.StringValue()\n','	return ""\n')),
 bug('C16',(F,'	return val.StringValue()\n','	return strconv.Quote(val.StringValue())\n')),
 bug('C16',(F,'Escape(val.StringValue())','val.StringValue()')),
 bug('C29',(F,'	return strings.ToUpper(fmt.Sprint(variant))','	return strings.ToTitle(fmt.Sprint(variant)) + "_"')),
 bug('C16 C30',(F,'strings.ToUpper(fmt.Sprint(variant))','strings.ToUpper(fmt.Sprint(variant)[:1])')),
],[])
