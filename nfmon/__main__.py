from nfmon.core import main
main()
