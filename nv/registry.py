from . import buf, misc, vecs, safety, num
CHECKS = {'C01': buf.c01, 'C02': buf.c02, 'C03': buf.c03, 'C10': buf.c10, 'C18': buf.c18, 'C23': buf.c23, 'C11': misc.c11, 'C12': misc.c12, 'C13': misc.c13, 'C14': misc.c14, 'C22': misc.c22, 'C15': vecs.c15, 'C16': vecs.c16, 'C17': safety.c17, 'C19': safety.c19, 'C20': safety.c20, 'C21': safety.c21, 'C04': num.c04, 'C05': num.c05, 'C06': num.c06, 'C07': num.c07, 'C08': num.c08, 'C09': num.c09}
