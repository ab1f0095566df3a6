id = 'cli-exit-status'; prop = 'C36'
edits = [('neocore/bin/cli.py', "            address = scripthash_to_address(args.scripthash_to_address[0])\n            print(address)\n        except ConversionError as e:\n            print(e)\n            exit(1)", "            address = scripthash_to_address(args.scripthash_to_address[0])\n            print(address)\n        except ConversionError as e:\n            print(e)\n            exit(not args.address_to_scripthash)")]
needs = 'both conversions on one command line, the second one invalid'; breaks = 'the exit status is zero although a conversion failed'
demo = '''
import sys, io, contextlib
from neocore.bin import cli
A = "AK2nJJpJr6o664CWJKi1QRXjqeic2zRp8y"
for argv in (["--scripthash-to-address", "zz"], ["--address-to-scripthash", A, "--scripthash-to-address", "zz"]):
    sys.argv = ["np-utils"] + argv
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            cli.main()
    except SystemExit as e:
        if e.code not in (0, None, False):
            continue
    raise SystemExit("status 0 for %s" % argv)
'''
