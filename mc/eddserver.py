# Runs the domain generator's main once per line read: the arguments, separated by \x01.
# Answers with its exit code, or the kind of the exception that ended it.
import os
import sys
sys.dont_write_bytecode = True
where = sys.argv[1]
sys.path.insert(0, where)
import domainGenerator
import traceback
answers = sys.stdout
questions = sys.stdin
while True:
    line = questions.readline()
    if not line:
        break
    sys.argv = [os.path.join(where, 'domainGenerator.py')] + line.rstrip('\n').split('\x01')
    sys.stdin = open(os.devnull)  # site's exit() closes it
    try:
        code = domainGenerator.main()
    except SystemExit as e:
        code = e.code
    except BaseException as e:
        traceback.print_exc()
        code = 'raised ' + e.__class__.__name__
    answers.write('ANSWER ' + str(code) + '\n')
    answers.flush()
