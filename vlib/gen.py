"""Shared generators."""
from hypothesis import strategies as st

def pgtext(n = 20):
	"""Text a server with UTF-8 encoding can hold: no NUL, no surrogates."""
	return st.one_of(
		st.text(alphabet=st.characters(exclude_characters='\0', exclude_categories=('Cs',)), max_size=n),
		st.text(alphabet=st.characters(min_codepoint=1, max_codepoint=127), max_size=n),
		st.text(alphabet='aé\u0101\u4e2d\U0001F600\'"\\,{}() \n\t%$', max_size=n))
